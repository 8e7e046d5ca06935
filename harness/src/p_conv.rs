//! C16 conversions and native arithmetic, C17 serialization
use crate::gad::*;
use crate::oracle::*;
use crate::small::Fp;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::{field::Field, sizedvec::SizedVec};
use fawkes_crypto::native::{ecc::*, num::Num, poseidon::MerkleProof};
use ff::PrimeField;
use num::bigint::{BigInt, BigUint};
use num::traits::{One, Zero};
use rand::Rng;
use typenum::*;

macro_rules! same {
    ($ctx:expr, $got:expr, $want:expr, $what:expr, $in:expr) => {{
        let w = $want;
        match attempt(|| $got) {
            Ok(g) => {
                if g != w {
                    return fail(format!("{}: got {:?}, expected {:?}", $what, g, w), format!("{} (field modulus {})", $in, modulus::<F>()));
                }
            }
            Err(e) => return fail(format!("{}: panics ({}), expected {:?}", $what, e, w), format!("{} (field modulus {})", $in, modulus::<F>())),
        }
        $ctx.nontrivial += 1;
        $ctx.ok(|| format!("{} {}", $what, $in));
    }};
}
macro_rules! refused {
    ($ctx:expr, $got:expr, $what:expr, $in:expr) => {{
        if let Ok(g) = attempt(|| $got) {
            return fail(format!("{}: must be refused, got {:?}", $what, g), format!("{} (field modulus {})", $in, modulus::<F>()));
        }
        $ctx.nontrivial += 1;
        $ctx.ok(|| format!("{} {}", $what, $in));
    }};
}
fn width<F: Field>() -> usize {
    ((F::NUM_BITS + 7) / 8) as usize
}
fn bigs<F: Field>(ctx: &mut Ctx) -> Vec<BigUint> {
    let p = modulus::<F>();
    let one = BigUint::one();
    let mut v: Vec<BigUint> = vec![BigUint::zero(), one.clone(), &p - &one, p.clone(), &p + &one, &p * 2u32, &p * 2u32 + &one, &p * &p, &p * 12345u32 - &one];
    for k in [7usize, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 248, 253, 254, 255, 256, 257, 320, 511, 512, 513, 1024].iter() {
        v.push((&one << *k) - &one);
        v.push(&one << *k);
        v.push((&one << *k) + &one);
    }
    for _ in 0..ctx.n(60, 2000) {
        let n = ctx.rng.gen::<usize>() % 90;
        let b: Vec<u8> = (0..n).map(|_| ctx.rng.gen()).collect();
        v.push(BigUint::from_bytes_be(&b));
        v.push(big(ctx.rng.gen::<F>()));
    }
    let l = ctx.lits.clone();
    v.extend(l);
    v
}
fn res<F: Field>(x: &BigUint) -> BigUint {
    x % modulus::<F>()
}
fn ints<F: Field>(ctx: &mut Ctx) -> R<()> {
    let p = modulus::<F>();
    let m = |x: i128| -> BigUint {
        let a = BigUint::from(x.unsigned_abs() as u64) % &p;
        if x < 0 {
            (&p - a) % &p
        } else {
            a
        }
    };
    let mut v: Vec<i128> = vec![];
    for k in 0..65 {
        for d in -1i128..2 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    for l in &ctx.lits {
        if let Ok(x) = l.to_string().parse::<i128>() {
            v.push(x);
            v.push(-x);
        }
    }
    for _ in 0..ctx.n(50, 2000) {
        v.push(ctx.rng.gen::<i64>() as i128);
        v.push(ctx.rng.gen::<i32>() as i128);
    }
    for x in v {
        if x >= 0 && x <= u64::MAX as i128 {
            same!(ctx, big(Num::<F>::from(x as u64).0), m(x), "from u64", x);
        }
        if x >= 0 && x <= u32::MAX as i128 {
            same!(ctx, big(Num::<F>::from(x as u32).0), m(x), "from u32", x);
        }
        if x >= i64::MIN as i128 && x <= i64::MAX as i128 {
            same!(ctx, big(Num::<F>::from(x as i64).0), m(x), "from i64", x);
        }
        if x >= i32::MIN as i128 && x <= i32::MAX as i128 {
            same!(ctx, big(Num::<F>::from(x as i32).0), m(x), "from i32", x);
        }
    }
    Ok(())
}
fn convs<F: Field>(ctx: &mut Ctx) -> R<()> {
    let p = modulus::<F>();
    for b in [false, true].iter() {
        same!(ctx, big(Num::<F>::from(*b).0), BigUint::from(*b as u32), "from bool", b);
        same!(ctx, Num::<F>::from(*b).into_bool(), *b, "into_bool", b);
    }
    for x in bigs::<F>(ctx) {
        same!(ctx, big(Num::<F>::from(x.clone()).0), res::<F>(&x), "from BigUint", x);
        same!(ctx, big(Num::<F>::from(BigInt::from(x.clone())).0), res::<F>(&x), "from BigInt", x);
        let neg = (&p - res::<F>(&x)) % &p;
        same!(ctx, big(Num::<F>::from(-BigInt::from(x.clone())).0), neg, "from negative BigInt", x);
        same!(ctx, big(Num::<F>::from(x.to_string().as_str()).0), res::<F>(&x), "from decimal string", x);
        let be = x.to_bytes_be();
        for pad in [0usize, 1, 5, 40].iter() {
            let mut b = vec![0u8; *pad];
            b.extend(&be);
            same!(ctx, big(Num::<F>::from_binary_be(&b).0), res::<F>(&x), "from big-endian bytes", format!("{:?}", b));
        }
        let e = of_big::<F>(&x);
        elem(ctx, e)?;
    }
    same!(ctx, big(Num::<F>::from_binary_be(&[]).0), BigUint::zero(), "from empty bytes", "");
    for s in ["", "abc", "-", "1x", "0x10", "1 2", "1.0"].iter() {
        refused!(ctx, Num::<F>::from(*s), "malformed decimal string", s);
    }
    let ed: Vec<F> = edge(ctx);
    for e in ed {
        elem(ctx, e)?;
    }
    Ok(())
}
fn elem<F: Field>(ctx: &mut Ctx, e: F) -> R<()> {
    let x = big(e);
    let p = modulus::<F>();
    let n = Num(e);
    same!(ctx, Into::<BigUint>::into(n), x.clone(), "into BigUint", x);
    same!(ctx, n.to_string(), x.to_string(), "decimal text", x);
    let mut be = vec![0u8; width::<F>()];
    let xb = x.to_bytes_be();
    if x != BigUint::zero() {
        let l = be.len();
        be[l - xb.len()..].copy_from_slice(&xb);
    }
    same!(ctx, n.into_binary_be(), be.clone(), "into big-endian bytes", x);
    if x.bits() <= 64 {
        let want: u64 = x.to_string().parse().unwrap();
        same!(ctx, Into::<u64>::into(n), want, "into u64", x);
    } else {
        refused!(ctx, Into::<u64>::into(n), "into u64 of a larger value", x);
    }
    if x > BigUint::one() {
        refused!(ctx, n.into_bool(), "into_bool of a non-boolean", x);
    }
    same!(ctx, n.is_odd(), &x % 2u32 == BigUint::one(), "is_odd", x);
    same!(ctx, n.is_even(), &x % 2u32 == BigUint::zero(), "is_even", x);
    same!(ctx, n.is_zero(), x == BigUint::zero(), "is_zero", x);
    same!(ctx, big(n.double().0), (&x * 2u32) % &p, "double", x);
    same!(ctx, big(n.square().0), (&x * &x) % &p, "square", x);
    same!(ctx, big((-n).0), (&p - &x) % &p, "negation", x);
    same!(ctx, big((-&n).0), (&p - &x) % &p, "negation of a reference", x);
    same!(ctx, n.into_inner() == e, true, "into_inner", x);
    same!(ctx, Num::new(e) == n, true, "new", x);
    if x == BigUint::zero() {
        refused!(ctx, n.inverse(), "inverse of zero", x);
        refused!(ctx, Num::<F>::one() / n, "division by zero", x);
    } else {
        same!(ctx, (big(n.inverse().0) * &x) % &p, BigUint::one(), "inverse times the element", x);
    }
    let qr = is_square(e);
    match attempt(|| n.sqrt()) {
        Ok(Some(r)) if qr && (big(r.0) * big(r.0)) % &p == x => {}
        Ok(None) if !qr => {}
        o => return fail(format!("square root: got {:?}, the element is {}a square", o, if qr { "" } else { "not " }), format!("{} (field modulus {})", x, p)),
    }
    let limbs = PrimeField::into_repr(&e).as_ref().len() * 64;
    let le = bits_of_big(&x, limbs);
    let mut beb = le.clone();
    beb.reverse();
    same!(ctx, n.iterbit_le().collect::<Vec<bool>>(), le, "little-endian bits", x);
    same!(ctx, n.iterbit_be().collect::<Vec<bool>>(), beb, "big-endian bits", x);
    Ok(())
}
fn pair<F: Field>(ctx: &mut Ctx, a: F, b: F) -> R<()> {
    let (x, y, p) = (big(a), big(b), modulus::<F>());
    let (m, n) = (Num(a), Num(b));
    let i = format!("{} and {}", x, y);
    macro_rules! op {
        ($op:tt, $opa:tt, $want:expr, $w:expr) => {{
            let w = $want;
            same!(ctx, big((m $op n).0), w.clone(), concat!($w, " val val"), i);
            same!(ctx, big((m $op &n).0), w.clone(), concat!($w, " val ref"), i);
            same!(ctx, big((&m $op n).0), w.clone(), concat!($w, " ref val"), i);
            same!(ctx, big((&m $op &n).0), w.clone(), concat!($w, " ref ref"), i);
            same!(ctx, { let mut z = m; z $opa &n; big(z.0) }, w.clone(), concat!($w, " assign ref"), i);
            same!(ctx, { let mut z = m; z $opa n; big(z.0) }, w.clone(), concat!($w, " assign val"), i);
        }};
    }
    op!(+, +=, (&x + &y) % &p, "addition");
    op!(-, -=, (&x + &p - &y) % &p, "subtraction");
    op!(*, *=, (&x * &y) % &p, "multiplication");
    if y != BigUint::zero() {
        let inv = y.modpow(&(&p - BigUint::from(2u32)), &p);
        op!(/, /=, (&x * &inv) % &p, "division");
    } else {
        refused!(ctx, m / n, "division by zero", i);
    }
    same!(ctx, m == n, x == y, "equality", i);
    Ok(())
}
fn other<F: Field, G: Field>(ctx: &mut Ctx, e: F) -> R<()> {
    let x = big(e);
    let want = &x % modulus::<G>();
    same!(ctx, big(Num(e).into_other::<G>().0), want.clone(), "into another field", x);
    same!(ctx, big(Num::<G>::from_other(Num(e)).0), want, "from another field", x);
    Ok(())
}
fn real<F: Field, G: Field>(ctx: &mut Ctx) -> R<()> {
    ints::<F>(ctx)?;
    convs::<F>(ctx)?;
    same!(ctx, big(Num::<F>::zero().0), BigUint::zero(), "zero", "");
    same!(ctx, big(Num::<F>::one().0), BigUint::one(), "one", "");
    same!(ctx, big(Num::<F>::minusone().0), modulus::<F>() - 1u32, "minusone", "");
    let e: Vec<F> = edge(ctx);
    for a in &e {
        for _ in 0..ctx.n(4, 40) {
            let b = e[ctx.rng.gen::<usize>() % e.len()];
            pair(ctx, *a, b)?;
        }
        other::<F, G>(ctx, *a)?;
        other::<F, F>(ctx, *a)?;
    }
    for _ in 0..ctx.n(30, 1000) {
        let x: F = ctx.rng.gen();
        let y: F = ctx.rng.gen();
        pair(ctx, x, y)?;
        other::<F, G>(ctx, x)?;
    }
    Ok(())
}
fn tiny<const P: u64, const Q: u64>(ctx: &mut Ctx) -> R<()> {
    for a in elems::<Fp<P>>() {
        elem(ctx, a)?;
        for b in elems::<Fp<P>>() {
            pair(ctx, a, b)?;
        }
        other::<Fp<P>, Fp<Q>>(ctx, a)?;
        other::<Fp<P>, fawkes_crypto::native::bn256::Fr>(ctx, a)?;
    }
    Ok(())
}
pub fn c16(ctx: &mut Ctx) -> R<()> {
    use fawkes_crypto::native::{bls12_381, bn256};
    tiny::<13, 5>(ctx)?;
    tiny::<101, 13>(ctx)?;
    real::<bn256::Fr, bn256::Fs>(ctx)?;
    real::<bn256::Fs, bn256::Fr>(ctx)?;
    real::<bls12_381::Fr, bls12_381::Fs>(ctx)?;
    real::<bls12_381::Fs, bn256::Fr>(ctx)?;
    // the base fields are used in key and proof data
    convs::<pairing::bn256::Fq>(ctx)?;
    ints::<pairing::bls12_381::Fq>(ctx)?;
    convs::<pairing::bls12_381::Fq>(ctx)
}

// ------------------------------------------------------------------------------------------ C17
pub fn le_bytes<F: Field>(x: &BigUint) -> Vec<u8> {
    let w = PrimeField::into_repr(&F::zero()).as_ref().len() * 8;
    let mut b = x.to_bytes_le();
    b.resize(w.max(b.len()), 0);
    b
}
fn ser<F: Field>(ctx: &mut Ctx) -> R<()> {
    let p = modulus::<F>();
    let w = PrimeField::into_repr(&F::zero()).as_ref().len() * 8;
    let mut es: Vec<F> = edge(ctx);
    for _ in 0..ctx.n(100, 5000) {
        es.push(ctx.rng.gen());
    }
    for e in &es {
        let x = big(*e);
        let n = Num(*e);
        same!(ctx, n.try_to_vec().unwrap(), le_bytes::<F>(&x), "binary form", x);
        same!(ctx, serde_json::to_string(&n).unwrap(), format!("\"{}\"", x), "text form", x);
        same!(ctx, serde_json::from_str::<Num<F>>(&format!("\"{}\"", x)).ok().map(|v| big(v.0)), Some(x.clone()), "text round trip", x);
        same!(ctx, Num::<F>::try_from_slice(&le_bytes::<F>(&x)).ok().map(|v| big(v.0)), Some(x.clone()), "binary round trip", x);
        // one element is consumed from a longer buffer
        same!(
            ctx,
            {
                let mut b = le_bytes::<F>(&x);
                b.extend(vec![7u8; 5]);
                let mut s = &b[..];
                let v = <Num<F> as BorshDeserialize>::deserialize(&mut s).ok().map(|v| big(v.0));
                (v, s.len())
            },
            (Some(x.clone()), 5),
            "binary read from a stream",
            x
        );
    }
    // not below the modulus
    let top = BigUint::one() << (8 * w);
    let mut bad: Vec<BigUint> = vec![p.clone(), &p + 1u32, &p + 2u32, &p * 2u32, &top - 1u32, BigUint::one() << (8 * w - 1)];
    for _ in 0..ctx.n(40, 1000) {
        let b: Vec<u8> = (0..w).map(|_| ctx.rng.gen()).collect();
        bad.push(BigUint::from_bytes_le(&b));
        let e = big(ctx.rng.gen::<F>());
        bad.push(&p + e);
    }
    for x in bad {
        if x < p {
            continue;
        }
        if x < top {
            same!(ctx, Num::<F>::try_from_slice(&le_bytes::<F>(&x)).is_err(), true, "binary encoding of an integer not below the modulus is rejected", x);
        }
        same!(ctx, serde_json::from_str::<Num<F>>(&format!("\"{}\"", x)).is_err(), true, "text encoding of an integer not below the modulus is rejected", x);
    }
    for n in 0..w {
        same!(ctx, Num::<F>::try_from_slice(&vec![1u8; n]).is_err(), true, "truncated binary encoding is rejected", n);
        same!(ctx, { let b = vec![0u8; n]; let mut s = &b[..]; <Num<F> as BorshDeserialize>::deserialize(&mut s).is_err() }, true, "truncated binary encoding is rejected", n);
    }
    for s in ["\"\"", "\"x\"", "\"-1\"", "\"1.5\"", "\"0x1\"", "null", "[1]", "{}", "\"12"].iter() {
        same!(ctx, serde_json::from_str::<Num<F>>(s).is_err(), true, "malformed text is rejected", s);
    }
    // points
    for i in 0..es.len() {
        let (x, y) = (es[i], es[(i * 7 + 3) % es.len()]);
        let a = EdwardsPoint { x: Num(x), y: Num(y) };
        let m = MontgomeryPoint { x: Num(x), y: Num(y) };
        same!(ctx, serde_json::from_str::<EdwardsPoint<F>>(&serde_json::to_string(&a).unwrap()).unwrap() == a, true, "Edwards point text round trip", format!("{:?}", a));
        same!(ctx, serde_json::from_str::<MontgomeryPoint<F>>(&serde_json::to_string(&m).unwrap()).unwrap() == m, true, "Montgomery point text round trip", format!("{:?}", m));
        same!(
            ctx,
            serde_json::from_str::<EdwardsPoint<F>>(&format!("{{\"x\":\"{}\",\"y\":\"{}\"}}", big(x), big(y) + modulus::<F>())).is_err(),
            true,
            "point with an overflowing coordinate is rejected",
            format!("{:?}", a)
        );
    }
    vecs::<F, U0>(ctx)?;
    vecs::<F, U1>(ctx)?;
    vecs::<F, U2>(ctx)?;
    vecs::<F, U3>(ctx)?;
    vecs::<F, U8>(ctx)?;
    vecs::<F, U32>(ctx)
}
fn vecs<F: Field, L: Unsigned>(ctx: &mut Ctx) -> R<()> {
    let l = L::USIZE;
    let v: Vec<Num<F>> = (0..l).map(|_| Num(ctx.rng.gen())).collect();
    let path: Vec<bool> = (0..l).map(|_| ctx.rng.gen()).collect();
    let s: SizedVec<Num<F>, L> = v.iter().cloned().collect();
    let j = serde_json::to_string(&s).unwrap();
    same!(ctx, j.clone(), serde_json::to_string(&v).unwrap(), "vector text form", l);
    same!(ctx, serde_json::from_str::<SizedVec<Num<F>, L>>(&j).map(|x| x.0).ok(), Some(v.clone()), "vector text round trip", l);
    let pr = MerkleProof::<F, L> { sibling: s.clone(), path: path.iter().cloned().collect() };
    let j = serde_json::to_string(&pr).unwrap();
    same!(
        ctx,
        serde_json::from_str::<MerkleProof<F, L>>(&j).map(|q| (q.sibling.0, q.path.0)).ok(),
        Some((v.clone(), path.clone())),
        "Merkle proof text round trip",
        l
    );
    for k in (0..l + 4).chain(vec![64, 100]) {
        if k != l {
            let w: Vec<Num<F>> = (0..k).map(|_| Num(ctx.rng.gen())).collect();
            let j = serde_json::to_string(&w).unwrap();
            same!(ctx, serde_json::from_str::<SizedVec<Num<F>, L>>(&j).is_err(), true, "vector of the wrong length is rejected", format!("{} items for length {}", k, l));
            let b: Vec<bool> = vec![true; k];
            let p1 = format!("{{\"sibling\":{},\"path\":{}}}", j, serde_json::to_string(&path).unwrap());
            let p2 = format!("{{\"sibling\":{},\"path\":{}}}", serde_json::to_string(&v).unwrap(), serde_json::to_string(&b).unwrap());
            same!(ctx, serde_json::from_str::<MerkleProof<F, L>>(&p1).is_err(), true, "proof with the wrong number of siblings is rejected", format!("{} for {}", k, l));
            same!(ctx, serde_json::from_str::<MerkleProof<F, L>>(&p2).is_err(), true, "proof with the wrong number of path bits is rejected", format!("{} for {}", k, l));
        }
    }
    if l > 0 {
        let mut bad: Vec<String> = v.iter().map(|x| big(x.0).to_string()).collect();
        let at = ctx.rng.gen::<usize>() % l;
        bad[at] = modulus::<F>().to_string();
        let j = serde_json::to_string(&bad).unwrap();
        same!(ctx, serde_json::from_str::<SizedVec<Num<F>, L>>(&j).is_err(), true, "vector with an overflowing element is rejected", at);
    }
    Ok(())
}
pub fn c17(ctx: &mut Ctx) -> R<()> {
    use fawkes_crypto::native::{bls12_381, bn256};
    ser::<bn256::Fr>(ctx)?;
    ser::<bn256::Fs>(ctx)?;
    ser::<bls12_381::Fr>(ctx)?;
    ser::<bls12_381::Fs>(ctx)?;
    ser::<pairing::bn256::Fq>(ctx)?;
    ser::<pairing::bls12_381::Fq>(ctx)
}
