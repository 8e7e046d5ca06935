//! C23: seeded stream, hash parameters, curve parameters; C26: the checking constraint system.
use crate::curves::*;
use crate::gad::*;
use crate::oracle::*;
use crate::small::Fp;
use blake2_rfc::blake2s::Blake2s;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::ecc::JubJubParams;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use num::bigint::BigUint;
use rand::Rng;

/// the documented stream, written independently
pub struct Stream {
    salt: Option<Vec<u8>>,
    block: u64,
    words: Vec<u32>,
}
impl Stream {
    pub fn new(salt: Option<&[u8]>) -> Self {
        let salt = salt.map(|s| {
            let mut h = Blake2s::new(32);
            h.update(s);
            h.finalize().as_ref().to_vec()
        });
        Stream { salt, block: 0, words: vec![] }
    }
}
impl Rng for Stream {
    fn next_u32(&mut self) -> u32 {
        if self.words.is_empty() {
            let mut m: Vec<u8> = (0..8).map(|i| (self.block >> (8 * i)) as u8).collect();
            m.extend(self.salt.clone().unwrap_or_default());
            let mut h = Blake2s::with_params(32, &[], &[], b"__fawkes");
            h.update(&m);
            let d = h.finalize().as_ref().to_vec();
            self.words = d.chunks(4).rev().map(|c| c[0] as u32 | (c[1] as u32) << 8 | (c[2] as u32) << 16 | (c[3] as u32) << 24).collect();
            self.block += 1;
        }
        self.words.pop().unwrap()
    }
}

fn stream(ctx: &mut Ctx) -> R<()> {
    let mut salts: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![0]), Some(b"edwards_g".to_vec()), Some(vec![255; 200]), Some(vec![7; 64])];
    for i in 0..ctx.n(30, 300) {
        let n = i * 3 % 97;
        salts.push(Some((0..n).map(|_| ctx.rng.gen()).collect()));
    }
    for (i, s) in salts.iter().enumerate() {
        let long = if i < 4 { ctx.n(8 * 70_000, 8 * 1_000_000) } else { 8 * 300 };
        let mk = || match s {
            None => SeedboxBlake2::new(),
            Some(s) => SeedboxBlake2::new_with_salt(s),
        };
        let mut a = mk();
        let mut b = Stream::new(s.as_deref());
        for k in 0..long {
            let (x, y) = (a.next_u32(), b.next_u32());
            if x != y {
                return fail(format!("word {} of the stream is {:#x}, expected {:#x}", k, x, y), format!("salt {:?}", s));
            }
        }
        ctx.nontrivial += 1;
        ctx.ok(|| format!("salt {:?}, {} words", s, long));
        // mixed draws
        let mut a = mk();
        let mut b = Stream::new(s.as_deref());
        for k in 0..200usize {
            let r = ctx.rng.gen::<u8>() % 3;
            let same = match r {
                0 => a.next_u32() == b.next_u32(),
                1 => a.next_u64() == b.next_u64(),
                _ => {
                    let (mut x, mut y) = (vec![0u8; k % 23], vec![0u8; k % 23]);
                    a.fill_bytes(&mut x);
                    b.fill_bytes(&mut y);
                    x == y
                }
            };
            if !same {
                return fail(format!("draw {} (kind {}) differs from the documented stream", k, r), format!("salt {:?}", s));
            }
        }
    }
    Ok(())
}
fn seeds<F: Field>(ctx: &mut Ctx, name: &str) -> R<()> {
    let p = modulus::<F>();
    let nb = (p.bits() + 7) / 8;
    let mut list: Vec<Vec<u8>> = vec![vec![], b"edwards_g".to_vec(), b"eddsaposeidon".to_vec(), vec![0; 100]];
    for i in 0..ctx.n(100, 2000) {
        list.push((0..i % 140).map(|_| ctx.rng.gen()).collect());
    }
    for s in list {
        let mut h = Blake2s::with_params(nb, &[], &[], b"__fawkes");
        h.update(&s);
        let want = BigUint::from_bytes_be(h.finalize().as_ref()) % &p;
        let got = big(Num::<F>::from_seed(&s).0);
        if got != want {
            return fail(format!("from_seed gives {} expected {}", got, want), format!("{} seed {:?}", name, s));
        }
        ctx.nontrivial += 1;
        ctx.ok(|| format!("from_seed {} {:?}", name, s));
    }
    Ok(())
}
fn hash_params<F: Field>(ctx: &mut Ctx, name: &str) -> R<()> {
    let mut list = vec![(2, 8, 53), (3, 8, 53), (4, 8, 54), (5, 8, 54), (6, 8, 54), (1, 0, 0), (1, 0, 1), (2, 1, 0), (7, 2, 3), (11, 3, 12), (12, 13, 14)];
    for _ in 0..ctx.n(10, 100) {
        list.push((1 + ctx.rng.gen::<usize>() % 12, ctx.rng.gen::<usize>() % 14, ctx.rng.gen::<usize>() % 120));
    }
    for (t, f, p) in list {
        let salt = format!("fawkes_poseidon(t={},f={},p={})", t, f, p);
        let mut s = Stream::new(Some(salt.as_bytes()));
        let c: Vec<F> = (0..f + p).map(|_| s.gen()).collect();
        let m: Vec<Vec<F>> = (0..t).map(|_| (0..t).map(|_| s.gen()).collect()).collect();
        let got = PoseidonParams::<F>::new(t, f, p);
        let gc: Vec<F> = got.c.iter().map(|x| x.0).collect();
        let gm: Vec<Vec<F>> = got.m.iter().map(|r| r.iter().map(|x| x.0).collect()).collect();
        let d = || format!("{} PoseidonParams::new({},{},{})", name, t, f, p);
        if (got.t, got.f, got.p) != (t, f, p) {
            return fail("the sizes recorded in the parameters differ from the requested ones", d());
        }
        if gc != c {
            return fail("round constants are not the documented function of the sizes", d());
        }
        if gm != m {
            return fail("mixing matrix is not the documented function of the sizes", d());
        }
        ctx.nontrivial += 1;
        ctx.ok(d);
    }
    Ok(())
}
fn curve<J: JubJubParams>(ctx: &mut Ctx, mk: impl Fn() -> J, dn: i128, dd: i128, u: i128, order_dec: &str, name: &str) -> R<()> {
    let j = mk();
    let (d, a, b, uu) = (V(j.edwards_d().0), V(j.montgomery_a().0), V(j.montgomery_b().0), V(j.montgomery_u().0));
    let g = (j.edwards_g().x.0, j.edwards_g().y.0);
    let r = order::<J>();
    let ck = |ctx: &mut Ctx, ok: bool, what: &str| -> R<()> {
        ctx.nontrivial += 1;
        ctx.ok(|| format!("{}: {}", name, what));
        if ok {
            Ok(())
        } else {
            fail(format!("{}: {}", name, what), format!("{} parameters", name))
        }
    };
    ck(ctx, d == int(dn) / int(dd), "Edwards d is not the documented quotient")?;
    ck(ctx, !is_square(d.0), "Edwards d is a square, so addition is not complete")?;
    ck(ctx, is_square((-one::<J::Fr>()).0), "-1 is not a square, so a=-1 addition is not complete")?;
    ck(ctx, a * (one() + d) == int::<J::Fr>(2) * (one() - d), "Montgomery A does not correspond to d")?;
    ck(ctx, b * (one() + d) == -int::<J::Fr>(4), "Montgomery B does not correspond to d")?;
    ck(ctx, uu == int(u), "the distinguished element differs from the documented one")?;
    ck(ctx, !is_square(uu.0), "the distinguished element is a square")?;
    ck(ctx, r == order_dec.parse().unwrap(), "scalar field modulus is not the subgroup order")?;
    ck(ctx, ed_on(g, d.0), "generator not on the curve")?;
    ck(ctx, g != ed_zero(), "generator is the identity")?;
    ck(ctx, ed_mul(g, &r, d.0) == ed_zero(), "generator not in the prime-order subgroup")?;
    let t = {
        let p = modulus::<J::Fr>();
        let mut h = Blake2s::with_params((p.bits() + 7) / 8, &[], &[], b"__fawkes");
        h.update(b"edwards_g");
        of_big::<J::Fr>(&(BigUint::from_bytes_be(h.finalize().as_ref()) % p))
    };
    ck(ctx, swu(t, &j) == Some(g), "generator is not the hash-to-curve image of its seed")?;
    // the field generator must generate: a quadratic non-residue (needed by square roots)
    ck(ctx, !is_square(<J::Fs as ff::PrimeField>::multiplicative_generator()), "scalar field generator is a square")?;
    let k = mk();
    ck(ctx, k.edwards_d() == j.edwards_d() && k.edwards_g() == j.edwards_g() && k.montgomery_a() == j.montgomery_a() && k.montgomery_b() == j.montgomery_b() && k.montgomery_u() == j.montgomery_u(), "parameters differ between two constructions")?;
    Ok(())
}
pub fn c23(ctx: &mut Ctx) -> R<()> {
    use fawkes_crypto::native::{bls12_381, bn256};
    stream(ctx)?;
    seeds::<bn256::Fr>(ctx, "bn256 Fr")?;
    seeds::<bn256::Fs>(ctx, "bn256 Fs")?;
    seeds::<bls12_381::Fr>(ctx, "bls12-381 Fr")?;
    seeds::<bls12_381::Fs>(ctx, "bls12-381 Fs")?;
    hash_params::<bn256::Fr>(ctx, "bn256")?;
    hash_params::<bls12_381::Fr>(ctx, "bls12-381")?;
    curve(ctx, bn256::JubJubBN256::new, -168696, 168700, 337401, "2736030358979909402780800718157159386076813972158567259200215660948447373041", "bn256")?;
    curve(ctx, bls12_381::JubJubBLS12_381::new, -10240, 10241, 81929, "6554484396890773809930967563523245729705921265872317281365359162392183254199", "bls12-381")?;
    Ok(())
}

/// C26: TestCS
fn testcs<F: Field>(ctx: &mut Ctx, name: &str, vals: &[F]) -> R<()> {
    let rounds = ctx.n(300, 5000);
    for _ in 0..rounds {
        let cs = TestCS::<F>::new();
        let mut seen: Vec<(Index, Option<F>)> = vec![];
        let mut ncons = 0;
        let n = 1 + ctx.rng.gen::<usize>() % 12;
        let mut log = vec![];
        for _ in 0..n {
            let v = vals[ctx.rng.gen::<usize>() % vals.len()];
            let v = if ctx.rng.gen::<u8>() % 5 == 0 { None } else { Some(v) };
            let inp = ctx.rng.gen::<bool>();
            let ix = if inp { cs.alloc_input(v.map(Num)) } else { cs.alloc(v.map(Num)) };
            log.push(format!("alloc(input={},{:?})={:?}", inp, v, ix));
            if ix == Index::Input(0) || seen.iter().any(|s| s.0 == ix) {
                return fail("allocation returned an index already in use", format!("{} {:?}", name, log));
            }
            seen.push((ix, v));
            // all earlier values are still recorded
            for (i, v) in &seen {
                if cs.variables.borrow().get(i).map(|x| x.0) != *v {
                    return fail(format!("value recorded for {:?} is not the one it was allocated with", i), format!("{} {:?}", name, log));
                }
            }
        }
        for _ in 0..6 {
            let t: Vec<Option<F>> = (0..3).map(|_| seen[ctx.rng.gen::<usize>() % seen.len()].1).collect();
            let k: Vec<CNum<TestCS<F>>> = t
                .iter()
                .map(|v| CNum::alloc(&cs, v.map(Num).as_ref()))
                .collect();
            // half of the time make it satisfied
            let (c, cv) = match (t[0], t[1], ctx.rng.gen::<bool>()) {
                (Some(a), Some(b), true) => {
                    let v = (V(a) * V(b)).0;
                    (CNum::alloc(&cs, Some(&Num(v))), Some(v))
                }
                _ => (k[2].clone(), t[2]),
            };
            let before = cs.num_constraints();
            if before != ncons {
                return fail(format!("constraint count is {} after {} constraints", before, ncons), format!("{} {:?}", name, log));
            }
            let must = match (t[0], t[1], cv) {
                (Some(a), Some(b), Some(c)) => V(a) * V(b) == V(c),
                _ => true,
            };
            let r = attempt(|| cs.enforce(&k[0], &k[1], &c));
            if r.is_ok() != must {
                return fail(format!("constraint with values {:?} * {:?} = {:?} {}", t[0], t[1], cv, if must { "refused" } else { "accepted" }), format!("{} {:?}", name, log));
            }
            ncons += 1;
            if r.is_ok() && cs.num_constraints() != ncons {
                return fail("a constraint was not counted exactly once", format!("{} {:?}", name, log));
            }
            ncons = cs.num_constraints();
            ctx.nontrivial += 1;
            ctx.ok(|| format!("{} enforce {:?} {:?} {:?}", name, t[0], t[1], cv));
        }
    }
    Ok(())
}
pub fn c26(ctx: &mut Ctx) -> R<()> {
    testcs::<Fp<7>>(ctx, "F7", &elems::<Fp<7>>())?;
    type Q = fawkes_crypto::native::bn256::Fr;
    let mut v: Vec<Q> = (0..6).map(|_| ctx.rng.gen()).collect();
    v.push(zero().0);
    v.push(one().0);
    v.push((-one::<Q>()).0);
    testcs::<Q>(ctx, "bn256", &v)
}
