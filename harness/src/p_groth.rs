//! C18, C19: point data, keys, proofs, translation to the backend and verification.
use crate::gad::*;
use crate::oracle::*;
use crate::rcs::*;
use bellman::groth16;
use bellman::{LinearCombination, SynthesisError, Variable};
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::bitify::*;
use fawkes_crypto::circuit::bool::CBool;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{Circuit, ConstraintSystem, TestCS};
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::helpers::groth16::prover::{self, Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::*;
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData, Groth16CS};
use fawkes_crypto::native::num::Num;
use ff::{PrimeField, SqrtField};
use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, Engine};
use rand::Rng;
use serde_json::{json, Value};

/// one supported pairing curve, with an oracle that does not use the code under test
pub trait Curve {
    const NAME: &'static str;
    type E: Engine<Fr = Self::Fr, G1Affine = Self::A1, G2Affine = Self::A2>;
    type Fr: Field;
    type Fq: Field;
    type Fq2: ff::Field + SqrtField;
    type A1: CurveAffine<Scalar = Self::Fr> + PartialEq;
    type A2: CurveAffine<Scalar = Self::Fr> + PartialEq;
    fn f2(c0: Self::Fq, c1: Self::Fq) -> Self::Fq2;
    fn un2(x: Self::Fq2) -> (Self::Fq, Self::Fq);
    fn xy1(p: &Self::A1) -> (Self::Fq, Self::Fq);
    fn xy2(p: &Self::A2) -> (Self::Fq2, Self::Fq2);
    fn raw1(x: Self::Fq, y: Self::Fq) -> Self::A1;
    fn raw2(x: Self::Fq2, y: Self::Fq2) -> Self::A2;
    fn to1(p: Self::A1) -> G1PointData<Self::Fq>;
    fn to2(p: Self::A2) -> G2PointData<Self::Fq>;
    fn of1(p: G1PointData<Self::Fq>) -> Self::A1;
    fn of2(p: G2PointData<Self::Fq>) -> Self::A2;
    fn proof_data(p: &Proof<Self::E>) -> ProofData<Self::Fq>;
    fn of_proof_data(p: &ProofData<Self::Fq>) -> Proof<Self::E>;
    fn proof_write(p: &Proof<Self::E>) -> Vec<u8>;
    fn proof_read(b: &[u8]) -> std::io::Result<Proof<Self::E>>;
    fn key_data(p: &TruncatedVerifyingKey<Self::E>) -> TruncatedVerifyingKeyData<Self::Fq>;
    fn of_key_data(p: &TruncatedVerifyingKeyData<Self::Fq>) -> TruncatedVerifyingKey<Self::E>;
}
macro_rules! curve {
    ($n:ident, $s:expr, $m:ident, $e:ident) => {
        pub struct $n;
        impl Curve for $n {
            const NAME: &'static str = $s;
            type E = $m::$e;
            type Fr = $m::Fr;
            type Fq = $m::Fq;
            type Fq2 = $m::Fq2;
            type A1 = $m::G1Affine;
            type A2 = $m::G2Affine;
            fn f2(c0: Self::Fq, c1: Self::Fq) -> Self::Fq2 {
                $m::Fq2 { c0, c1 }
            }
            fn un2(x: Self::Fq2) -> (Self::Fq, Self::Fq) {
                (x.c0, x.c1)
            }
            fn xy1(p: &Self::A1) -> (Self::Fq, Self::Fq) {
                let u = p.into_uncompressed();
                let (x, y) = u.as_ref().split_at(u.as_ref().len() / 2);
                (of_be(x), of_be(y))
            }
            fn xy2(p: &Self::A2) -> (Self::Fq2, Self::Fq2) {
                let u = p.into_uncompressed();
                let n = u.as_ref().len() / 4;
                let c: Vec<Self::Fq> = u.as_ref().chunks(n).map(of_be).collect();
                ($m::Fq2 { c1: c[0], c0: c[1] }, $m::Fq2 { c1: c[2], c0: c[3] })
            }
            fn raw1(x: Self::Fq, y: Self::Fq) -> Self::A1 {
                unsafe { std::mem::transmute((x, y, false)) }
            }
            fn raw2(x: Self::Fq2, y: Self::Fq2) -> Self::A2 {
                unsafe { std::mem::transmute((x, y, false)) }
            }
            fn to1(p: Self::A1) -> G1PointData<Self::Fq> {
                G1PointData::from(p)
            }
            fn to2(p: Self::A2) -> G2PointData<Self::Fq> {
                G2PointData::from(p)
            }
            fn of1(p: G1PointData<Self::Fq>) -> Self::A1 {
                p.into()
            }
            fn of2(p: G2PointData<Self::Fq>) -> Self::A2 {
                p.into()
            }
            fn proof_data(p: &Proof<Self::E>) -> ProofData<Self::Fq> {
                p.into_data()
            }
            fn of_proof_data(p: &ProofData<Self::Fq>) -> Proof<Self::E> {
                Proof::<$m::$e>::from_data(p)
            }
            fn proof_write(p: &Proof<Self::E>) -> Vec<u8> {
                let mut v = vec![];
                p.write(&mut v).unwrap();
                v
            }
            fn proof_read(b: &[u8]) -> std::io::Result<Proof<Self::E>> {
                Proof::<$m::$e>::read(b)
            }
            fn key_data(p: &TruncatedVerifyingKey<Self::E>) -> TruncatedVerifyingKeyData<Self::Fq> {
                p.into_data()
            }
            fn of_key_data(p: &TruncatedVerifyingKeyData<Self::Fq>) -> TruncatedVerifyingKey<Self::E> {
                TruncatedVerifyingKey::<$m::$e>::from_data(p)
            }
        }
    };
}
curve!(BN, "bn256", bn256, Bn256);
curve!(BLS, "bls12-381", bls12_381, Bls12);

fn of_be<F: Field>(b: &[u8]) -> F {
    // the top bits of an uncompressed encoding are flags; both curves leave them clear for finite points
    of_big(&num::bigint::BigUint::from_bytes_be(b))
}
fn jn<F: Field>(x: F) -> Value {
    json!(big(x).to_string())
}
fn data1<C: Curve>(x: C::Fq, y: C::Fq) -> G1PointData<C::Fq> {
    serde_json::from_value(json!([jn(x), jn(y)])).expect("G1PointData from its text form")
}
fn data2<C: Curve>(x: C::Fq2, y: C::Fq2) -> G2PointData<C::Fq> {
    let (x0, x1) = C::un2(x);
    let (y0, y1) = C::un2(y);
    serde_json::from_value(json!([[jn(x1), jn(x0)], [jn(y1), jn(y0)]])).expect("G2PointData from its text form")
}
fn b1<C: Curve>() -> C::Fq {
    // y^2 - x^3 of the generator
    let (x, y) = C::xy1(&C::A1::one());
    (V(y) * V(y) - V(x) * V(x) * V(x)).0
}
fn b2<C: Curve>() -> C::Fq2 {
    let (x, y) = C::xy2(&C::A2::one());
    (V(y) * V(y) - V(x) * V(x) * V(x)).0
}
fn is_inf<A: CurveAffine>(p: &A) -> bool {
    p.is_zero()
}
fn in_sub<A: CurveAffine>(p: A, r: <A::Scalar as PrimeField>::Repr) -> bool {
    let mut acc = A::Projective::zero();
    let bits: Vec<bool> = ff::BitIterator::new(r).collect();
    let pp = p.into_projective();
    for b in bits {
        acc.double();
        if b {
            acc.add_assign(&pp);
        }
    }
    acc.is_zero()
}
fn rand1<C: Curve>(ctx: &mut Ctx) -> C::A1 {
    let k: C::Fr = ctx.rng.gen();
    C::A1::one().mul(k.into_repr()).into_affine()
}
fn rand2<C: Curve>(ctx: &mut Ctx) -> C::A2 {
    let k: C::Fr = ctx.rng.gen();
    C::A2::one().mul(k.into_repr()).into_affine()
}
trait Reprs {
    type R;
}
fn same1<C: Curve>(a: &C::A1, b: &C::A1) -> bool {
    is_inf(a) == is_inf(b) && (is_inf(a) || C::xy1(a) == C::xy1(b))
}
fn same2<C: Curve>(a: &C::A2, b: &C::A2) -> bool {
    is_inf(a) == is_inf(b) && (is_inf(a) || C::xy2(a) == C::xy2(b))
}

fn import<C: Curve>(ctx: &mut Ctx) -> R<()>
where
    C::A1: CurveAffine<Scalar = C::Fr>,
    C::A2: CurveAffine<Scalar = C::Fr>,
{
    let r = <C::Fr as PrimeField>::char();
    let zq = zero::<C::Fq>().0;
    let small = |n: i128| int::<C::Fq>(n).0;
    // G1 candidates
    let mut c1: Vec<(C::Fq, C::Fq)> = vec![(zq, zq), (zq, small(1)), (small(1), zq), (small(1), small(2)), (zq, small(2)), (zq, small(-2)), (small(1), small(1))];
    let (gx, gy) = C::xy1(&C::A1::one());
    c1.extend(vec![(gx, gy), (gx, (-V(gy)).0), (gy, gx), (gx, zq), (zq, gy), ((-V(gx)).0, gy), (gx, (V(gy) + one()).0)]);
    let bb = V(b1::<C>());
    // x of the curve, points that may lie outside the subgroup
    for i in 0..ctx.n(60, 600) {
        let x: C::Fq = if i < 40 { small(i as i128) } else { ctx.rng.gen() };
        if let Some(y) = sqrt((V(x) * V(x) * V(x) + bb).0) {
            c1.push((x, y));
            c1.push((x, (-V(y)).0));
        }
        c1.push((x, ctx.rng.gen()));
        // on the curve with another constant: y^2 = x^3 + b'
        let y: C::Fq = ctx.rng.gen();
        c1.push((x, y));
        let p = rand1::<C>(ctx);
        let (px, py) = C::xy1(&p);
        c1.push((px, py));
        c1.push((px, (V(py) + one()).0));
        c1.push(((V(px) + one()).0, py));
    }
    // roots of x^3 = -b : points of order two
    for (x, y) in c1 {
        let infinity = ff::Field::is_zero(&x) && ff::Field::is_zero(&y);
        let on = V(y) * V(y) == V(x) * V(x) * V(x) + bb;
        let good = infinity || (on && in_sub::<C::A1>(C::raw1(x, y), r));
        let d = || format!("{} G1 coordinates ({}, {})", C::NAME, big(x), big(y));
        let res = attempt(|| C::of1(data1::<C>(x, y)));
        ctx.nontrivial += 1;
        match res {
            Err(e) => {
                if good {
                    return fail(format!("a valid point is refused: {}", e), d());
                }
            }
            Ok(p) => {
                if !good {
                    return fail(if on { "a point outside the subgroup is accepted" } else { "coordinates off the curve are accepted" }, d());
                }
                if is_inf(&p) != infinity {
                    return fail("infinity confused with a finite point", d());
                }
                if !infinity && C::xy1(&p) != (x, y) {
                    return fail("imported point has other coordinates", d());
                }
                let back = C::to1(p);
                if back != data1::<C>(x, y) {
                    return fail("export of the imported point gives other coordinates", d());
                }
            }
        }
        ctx.ok(d);
    }
    // G2
    let mut c2: Vec<(C::Fq2, C::Fq2)> = vec![];
    let z2 = C::f2(zq, zq);
    let o2 = C::f2(small(1), zq);
    let i2 = C::f2(zq, small(1));
    c2.extend(vec![(z2, z2), (z2, o2), (o2, z2), (i2, z2), (z2, i2), (C::f2(zq, zq), C::f2(zq, small(3)))]);
    let (gx, gy) = C::xy2(&C::A2::one());
    let sw = |a: C::Fq2| {
        let (p, q) = C::un2(a);
        C::f2(q, p)
    };
    c2.extend(vec![(gx, gy), (gx, (-V(gy)).0), (gy, gx), (sw(gx), sw(gy)), (sw(gx), gy), (gx, z2), (z2, gy), (gx, (V(gy) + V(o2)).0), (gx, (V(gy) + V(i2)).0)]);
    let bb = V(b2::<C>());
    for i in 0..ctx.n(20, 200) {
        let x = if i < 10 { C::f2(small(i as i128), zq) } else if i < 15 { C::f2(zq, small(i as i128)) } else { C::f2(ctx.rng.gen(), ctx.rng.gen()) };
        if let Some(y) = (V(x) * V(x) * V(x) + bb).0.sqrt() {
            c2.push((x, y));
            // cofactor-cleared version of the same point is valid
            c2.push((x, (-V(y)).0));
        }
        c2.push((x, C::f2(ctx.rng.gen(), ctx.rng.gen())));
        let p = rand2::<C>(ctx);
        let (px, py) = C::xy2(&p);
        c2.push((px, py));
        c2.push((px, (V(py) + V(i2)).0));
        c2.push(((V(px) + V(i2)).0, py));
    }
    for (x, y) in c2 {
        let infinity = ff::Field::is_zero(&x) && ff::Field::is_zero(&y);
        let on = V(y) * V(y) == V(x) * V(x) * V(x) + bb;
        let good = infinity || (on && in_sub::<C::A2>(C::raw2(x, y), r));
        let d = || format!("{} G2 coordinates ({:?}, {:?})", C::NAME, x, y);
        let res = attempt(|| C::of2(data2::<C>(x, y)));
        ctx.nontrivial += 1;
        match res {
            Err(e) => {
                if good {
                    return fail(format!("a valid point is refused: {}", e), d());
                }
            }
            Ok(p) => {
                if !good {
                    return fail(if on { "a point outside the subgroup is accepted" } else { "coordinates off the curve are accepted" }, d());
                }
                if is_inf(&p) != infinity {
                    return fail("infinity confused with a finite point", d());
                }
                if !infinity && C::xy2(&p) != (x, y) {
                    return fail("imported point has other coordinates", d());
                }
                if C::to2(p) != data2::<C>(x, y) {
                    return fail("export of the imported point gives other coordinates", d());
                }
            }
        }
        ctx.ok(d);
    }
    Ok(())
}
fn le_bytes<F: Field>(x: F) -> Vec<u8> {
    let mut v = big(x).to_bytes_le();
    v.resize((modulus::<F>().bits() + 7) / 8, 0);
    // the encoding holds whole 64-bit limbs
    let l = <F as PrimeField>::Repr::default().as_ref().len() * 8;
    v.resize(l, 0);
    v
}
fn bin1<C: Curve>(p: &C::A1) -> Vec<u8> {
    let (x, y) = if is_inf(p) { (zero().0, zero().0) } else { C::xy1(p) };
    [le_bytes::<C::Fq>(x), le_bytes(y)].concat()
}
fn bin2<C: Curve>(p: &C::A2) -> Vec<u8> {
    let z = C::f2(zero().0, zero().0);
    let (x, y) = if is_inf(p) { (z, z) } else { C::xy2(p) };
    let (x0, x1) = C::un2(x);
    let (y0, y1) = C::un2(y);
    [le_bytes::<C::Fq>(x0), le_bytes(x1), le_bytes(y0), le_bytes(y1)].concat()
}
fn json1<C: Curve>(p: &C::A1) -> Value {
    let (x, y) = if is_inf(p) { (zero().0, zero().0) } else { C::xy1(p) };
    json!([jn::<C::Fq>(x), jn::<C::Fq>(y)])
}
fn json2<C: Curve>(p: &C::A2) -> Value {
    let z = C::f2(zero().0, zero().0);
    let (x, y) = if is_inf(p) { (z, z) } else { C::xy2(p) };
    let (x0, x1) = C::un2(x);
    let (y0, y1) = C::un2(y);
    json!([[jn::<C::Fq>(x1), jn(x0)], [jn::<C::Fq>(y1), jn(y0)]])
}

fn round_trips<C: Curve>(ctx: &mut Ctx) -> R<()>
where
    C::A1: CurveAffine<Scalar = C::Fr>,
    C::A2: CurveAffine<Scalar = C::Fr>,
    ProofData<C::Fq>: BorshSerialize + BorshDeserialize,
{
    for i in 0..ctx.n(14, 120) {
        let infm = if i < 10 { i } else { 0 };
        let mut p1 = |ctx: &mut Ctx, k: usize| if infm == k + 1 { C::A1::zero() } else { rand1::<C>(ctx) };
        let (a, c) = (p1(ctx, 0), p1(ctx, 1));
        let mut p2 = |ctx: &mut Ctx, k: usize| if infm == k + 1 { C::A2::zero() } else { rand2::<C>(ctx) };
        let b = p2(ctx, 2);
        let d = || format!("{} proof/key round trip, case {} (infinity pattern {})", C::NAME, i, infm);
        // proof
        let pr = Proof::<C::E>(groth16::Proof { a, b, c });
        let data = C::proof_data(&pr);
        let same = |q: &Proof<C::E>| same1::<C>(&q.0.a, &a) && same2::<C>(&q.0.b, &b) && same1::<C>(&q.0.c, &c);
        if !same(&C::of_proof_data(&data)) {
            return fail("a proof does not survive conversion to data and back", d());
        }
        let want = json!({"a": json1::<C>(&a), "b": json2::<C>(&b), "c": json1::<C>(&c)});
        let got = serde_json::to_value(&data).unwrap();
        if got != want {
            return fail(format!("text form of a proof is {} expected {}", got, want), d());
        }
        match serde_json::from_value::<ProofData<C::Fq>>(want) {
            Ok(q) if q == data => {}
            _ => return fail("text form of a proof does not read back", d()),
        }
        let want = [bin1::<C>(&a), bin2::<C>(&b), bin1::<C>(&c)].concat();
        let got = data.try_to_vec().unwrap();
        if got != want {
            return fail("binary form of a proof is not the documented one", format!("{}: {:?} expected {:?}", d(), got, want));
        }
        match ProofData::<C::Fq>::try_from_slice(&want) {
            Ok(q) if q == data => {}
            _ => return fail("binary form of a proof does not read back", d()),
        }
        let w = C::proof_write(&pr);
        let mut want: Vec<u8> = vec![];
        want.extend(a.into_compressed().as_ref());
        want.extend(b.into_compressed().as_ref());
        want.extend(c.into_compressed().as_ref());
        if w != want {
            return fail("compressed form of a proof is not a, b, c", d());
        }
        match C::proof_read(&w) {
            Ok(q) => {
                if infm != 0 && infm <= 3 {
                    return fail("a compressed proof with a point at infinity was read", d());
                }
                if !same(&q) {
                    return fail("compressed form of a proof does not read back", d());
                }
            }
            Err(e) => {
                if infm == 0 || infm > 3 {
                    return fail(format!("compressed form of a proof is refused: {}", e), d());
                }
            }
        }
        for cut in vec![0, 1, w.len() / 2, w.len() - 1] {
            if C::proof_read(&w[..cut]).is_ok() {
                return fail("a truncated compressed proof was read", d());
            }
        }
        // key
        let al = p1(ctx, 3);
        let (be, ga, de) = (p2(ctx, 4), p2(ctx, 5), p2(ctx, 6));
        let nic = if i % 5 == 4 { 0 } else { i % 7 + 1 };
        let ic: Vec<C::A1> = (0..nic).map(|k| p1(ctx, 7 + k)).collect();
        let k = TruncatedVerifyingKey::<C::E> { alpha_g1: al, beta_g2: be, gamma_g2: ga, delta_g2: de, ic: ic.clone() };
        let hasinf = is_inf(&al) || is_inf(&be) || is_inf(&ga) || is_inf(&de) || ic.iter().any(is_inf);
        let same = |q: &TruncatedVerifyingKey<C::E>| {
            same1::<C>(&q.alpha_g1, &al) && same2::<C>(&q.beta_g2, &be) && same2::<C>(&q.gamma_g2, &ga) && same2::<C>(&q.delta_g2, &de) && q.ic.len() == ic.len() && q.ic.iter().zip(ic.iter()).all(|(x, y)| same1::<C>(x, y))
        };
        // truncation of a full key keeps every element
        let vk = groth16::VerifyingKey::<C::E> { alpha_g1: al, beta_g1: rand1::<C>(ctx), beta_g2: be, gamma_g2: ga, delta_g1: rand1::<C>(ctx), delta_g2: de, ic: ic.clone() };
        if !same(&truncate_verifying_key(&vk)) {
            return fail("truncation changes an element of the key", d());
        }
        let data = C::key_data(&k);
        if !same(&C::of_key_data(&data)) {
            return fail("a key does not survive conversion to data and back", d());
        }
        let want = json!({"alpha_g1": json1::<C>(&al), "beta_g2": json2::<C>(&be), "gamma_g2": json2::<C>(&ga), "delta_g2": json2::<C>(&de),
            "ic": ic.iter().map(|p| json1::<C>(p)).collect::<Vec<_>>()});
        let got = serde_json::to_value(&data).unwrap();
        if got != want {
            return fail(format!("text form of a key is {} expected {}", got, want), d());
        }
        match serde_json::from_value::<TruncatedVerifyingKeyData<C::Fq>>(want) {
            Ok(q) if q == data => {}
            _ => return fail("text form of a key does not read back", d()),
        }
        let mut want = [bin1::<C>(&al), bin2::<C>(&be), bin2::<C>(&ga), bin2::<C>(&de)].concat();
        want.extend(&(ic.len() as u32).to_le_bytes());
        for p in &ic {
            want.extend(bin1::<C>(p));
        }
        if data.try_to_vec().unwrap() != want {
            return fail("binary form of a key is not the documented one", d());
        }
        match TruncatedVerifyingKeyData::<C::Fq>::try_from_slice(&want) {
            Ok(q) if q == data => {}
            _ => return fail("binary form of a key does not read back", d()),
        }
        for cut in vec![0, 1, 31, want.len() / 2, want.len() - 1] {
            if TruncatedVerifyingKeyData::<C::Fq>::try_from_slice(&want[..cut]).is_ok() {
                return fail("a truncated binary key was read", d());
            }
        }
        let mut w: Vec<u8> = vec![];
        k.write(&mut w).unwrap();
        let mut want: Vec<u8> = vec![];
        want.extend(al.into_compressed().as_ref());
        want.extend(be.into_compressed().as_ref());
        want.extend(ga.into_compressed().as_ref());
        want.extend(de.into_compressed().as_ref());
        for p in &ic {
            want.extend(p.into_compressed().as_ref());
        }
        if w != want {
            return fail("compressed form of a key is not the documented one", d());
        }
        match TruncatedVerifyingKey::<C::E>::read(&w[..]) {
            Ok(q) => {
                if hasinf {
                    return fail("a compressed key with a point at infinity was read", d());
                }
                if !same(&q) {
                    return fail("compressed form of a key does not read back", d());
                }
            }
            Err(e) => {
                if !hasinf {
                    return fail(format!("compressed form of a key is refused: {}", e), d());
                }
            }
        }
        if TruncatedVerifyingKey::<C::E>::read(&w[..al.into_compressed().as_ref().len() + 5]).is_ok() {
            return fail("a truncated compressed key was read", d());
        }
        ctx.nontrivial += 1;
        ctx.ok(d);
    }
    Ok(())
}
pub fn c18(ctx: &mut Ctx) -> R<()> {
    import::<BN>(ctx)?;
    import::<BLS>(ctx)?;
    round_trips::<BN>(ctx)?;
    round_trips::<BLS>(ctx)
}

// ---------------------------------------------------------------- C19
/// a backend that records what it is given
pub struct Mock<E: Engine> {
    pub log: Vec<bool>,
    pub vals: Vec<Option<E::Fr>>,
    pub cons: Vec<[Vec<((bool, usize), E::Fr)>; 3]>,
    pub nin: usize,
    pub naux: usize,
    pub setup: bool,
}
impl<E: Engine> Mock<E> {
    pub fn new(setup: bool) -> Self {
        Mock { log: vec![], vals: vec![], cons: vec![], nin: 1, naux: 0, setup }
    }
}
fn conv<E: Engine>(l: LinearCombination<E>) -> Vec<((bool, usize), E::Fr)> {
    l.as_ref()
        .iter()
        .map(|(v, c)| {
            (
                match v.get_unchecked() {
                    bellman::Index::Input(i) => (true, i),
                    bellman::Index::Aux(i) => (false, i),
                },
                *c,
            )
        })
        .collect()
}
impl<E: Engine> bellman::ConstraintSystem<E> for Mock<E> {
    type Root = Self;
    fn alloc<Fn, A, AR>(&mut self, _a: A, f: Fn) -> Result<Variable, SynthesisError>
    where
        Fn: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.vals.push(if self.setup { None } else { f().ok() });
        self.log.push(false);
        self.naux += 1;
        Ok(Variable::new_unchecked(bellman::Index::Aux(self.naux - 1)))
    }
    fn alloc_input<Fn, A, AR>(&mut self, _a: A, f: Fn) -> Result<Variable, SynthesisError>
    where
        Fn: FnOnce() -> Result<E::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.vals.push(if self.setup { None } else { f().ok() });
        self.log.push(true);
        self.nin += 1;
        Ok(Variable::new_unchecked(bellman::Index::Input(self.nin - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
    {
        let k = [conv(a(LinearCombination::zero())), conv(b(LinearCombination::zero())), conv(c(LinearCombination::zero()))];
        self.cons.push(k);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
/// a random circuit: a program over a stack of signals
#[derive(Clone)]
pub struct Prog<F: Field> {
    pub ops: Vec<(u8, usize, usize, F)>,
    pub vals: Option<Vec<F>>,
    pub nvars: usize,
}
impl<F: Field> Prog<F> {
    fn random(ctx: &mut Ctx, n: usize) -> Self {
        let nvars = 1 + ctx.rng.gen::<usize>() % 5;
        Prog {
            ops: (0..n).map(|_| (ctx.rng.gen::<u8>() % 9, ctx.rng.gen(), ctx.rng.gen(), ctx.rng.gen())).collect(),
            vals: Some((0..nvars).map(|_| ctx.rng.gen()).collect()),
            nvars,
        }
    }
}
impl<F: Field> Circuit for Prog<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let v: Vec<Option<Num<F>>> = match &self.vals {
            Some(v) => v.iter().map(|x| Some(Num(*x))).collect(),
            None => vec![None; self.nvars],
        };
        let mut st: Vec<CNum<CS>> = v.iter().map(|x| CNum::alloc(cs, x.as_ref())).collect();
        for (o, a, b, k) in &self.ops {
            let x = st[a % st.len()].clone();
            let y = st[b % st.len()].clone();
            match o {
                0 => st.push(x + y),
                1 => st.push(x * Num(*k) - y),
                2 => st.push(&x * &y),
                3 => {
                    x.inputize();
                }
                4 => st.push(x.is_zero().into_num()),
                5 => {
                    let p = &x * &y;
                    (&p - &x * &y).assert_zero();
                    st.push(p + Num(*k));
                }
                6 => st.push(CNum::from_const(cs, &Num(*k))),
                7 => st.push(CNum::alloc(cs, v[a % v.len()].as_ref())),
                _ => {
                    let z = CNum::alloc(cs, v[a % v.len()].as_ref());
                    z.inputize();
                    // a raw three-sided constraint through the trait itself
                    let (p, q) = (z.clone() + x.clone(), y.clone() + Num(*k));
                    let r = &p * &q;
                    cs.enforce(&p, &q, &r);
                }
            }
        }
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        None
    }
}
fn translate<C: Curve>(ctx: &mut Ctx) -> R<()> {
    for i in 0..ctx.n(120, 3000) {
        let n = ctx.rng.gen::<usize>() % 14 + (i % 2) * 10;
        let mut p = Prog::<C::Fr>::random(ctx, n);
        if i % 7 == 3 {
            if let Some(v) = p.vals.as_mut() {
                v[0] = zero().0
            }
        }
        for novals in vec![false, true] {
            if novals {
                p.vals = None
            }
            let d = || format!("{} program {:?} vals {:?}", C::NAME, p.ops, p.vals);
            let rec = Rec::<C::Fr>::new();
            p.synthesize(&rec);
            let cs = Groth16CS::<C::E, Mock<C::E>>::new(Mock::new(false));
            if let Err(e) = attempt(|| p.synthesize(&cs)) {
                return fail(format!("translation panics: {}", e), d());
            }
            let m = cs.bcs.into_inner();
            let rl: Vec<bool> = rec.log.borrow().iter().map(|x| x.0).collect();
            if rl != m.log {
                return fail("variables reach the backend with other kinds or in another order", d());
            }
            let rv: Vec<Option<C::Fr>> = rec.values()[1..].to_vec();
            if rv != m.vals {
                return fail("assigned values reach the backend changed", d());
            }
            let wires: Vec<(bool, usize)> = rec
                .wires
                .borrow()
                .iter()
                .map(|w| match w.0 {
                    Index::Input(i) => (true, i),
                    Index::Aux(i) => (false, i),
                })
                .collect();
            if rec.cons.borrow().len() != m.cons.len() {
                return fail("number of constraints differs", d());
            }
            for (k, (a, b)) in rec.cons.borrow().iter().zip(m.cons.iter()).enumerate() {
                for (side, (l, r)) in vec![(&a.0, &b[0]), (&a.1, &b[1]), (&a.2, &b[2])].into_iter().enumerate() {
                    let ix = |w: &(bool, usize)| wires.iter().position(|x| x == w);
                    let mut rr = vec![];
                    for (w, c) in r {
                        match ix(w) {
                            Some(i) => rr.push((i, *c)),
                            None => return fail("a constraint refers to a variable that does not exist", d()),
                        }
                    }
                    if norm(l) != norm(&rr) {
                        return fail(format!("side {} of constraint {} reaches the backend changed", side, k), d());
                    }
                }
            }
            ctx.nontrivial += 1;
            ctx.ok(d);
        }
    }
    Ok(())
}
fn verify_eq<C: Curve>(ctx: &mut Ctx) -> R<()>
where
    C::A1: CurveAffine<Scalar = C::Fr>,
    C::A2: CurveAffine<Scalar = C::Fr>,
{
    let g1 = |k: V<C::Fr>| C::A1::one().mul(k.0.into_repr()).into_affine();
    let g2 = |k: V<C::Fr>| C::A2::one().mul(k.0.into_repr()).into_affine();
    for i in 0..ctx.n(16, 200) {
        let mut s = |ctx: &mut Ctx| -> V<C::Fr> { V(ctx.rng.gen()) };
        let (al, be, ga, de) = (s(ctx), s(ctx), s(ctx), s(ctx));
        let n = i % 5;
        let mut ic: Vec<V<C::Fr>> = (0..n + 1).map(|_| s(ctx)).collect();
        if i % 6 == 5 {
            ic[0] = zero();
        }
        if i % 7 == 6 {
            let l = ic.len();
            ic[l - 1] = zero();
        }
        let mut inp: Vec<V<C::Fr>> = (0..n).map(|_| s(ctx)).collect();
        if n > 0 && i % 4 == 1 {
            inp[0] = zero();
        }
        if n > 1 && i % 4 == 2 {
            inp[1] = -one();
        }
        if n > 2 && i % 3 == 1 {
            inp[2] = inp[0];
        }
        let mut acc = ic[0];
        for k in 0..n {
            acc = acc + inp[k] * ic[k + 1];
        }
        let (a, b) = (s(ctx), s(ctx));
        // a b = al be + acc ga + c de
        let c = (a * b - al * be - acc * ga) / de;
        let d = |t: &str| format!("{} verify with {} inputs (logs: alpha {:?} beta {:?} gamma {:?} delta {:?} ic {:?} inputs {:?} a {:?} b {:?} c {:?}), {}", C::NAME, n, al, be, ga, de, ic, inp, a, b, c, t);
        let run = |al, be, ga, de, ic: &[V<C::Fr>], a, b, c, inp: &[V<C::Fr>]| {
            let k = TruncatedVerifyingKey::<C::E> { alpha_g1: g1(al), beta_g2: g2(be), gamma_g2: g2(ga), delta_g2: g2(de), ic: ic.iter().map(|x| g1(*x)).collect() };
            let p = Proof::<C::E>(groth16::Proof { a: g1(a), b: g2(b), c: g1(c) });
            let inp: Vec<C::Fr> = inp.iter().map(|x| x.0).collect();
            attempt(|| verify(&k, &p, &inp))
        };
        let ck = |ctx: &mut Ctx, r: Result<Result<bool, SynthesisError>, String>, want: Option<bool>, t: &str| -> R<()> {
            ctx.nontrivial += 1;
            ctx.ok(|| d(t));
            match (r, want) {
                (Err(e), _) => fail(format!("verification panics: {}", e), d(t)),
                (Ok(Ok(x)), Some(w)) if x == w => Ok(()),
                (Ok(Err(_)), None) => Ok(()),
                (Ok(r), w) => fail(format!("verification gives {:?}, expected {:?}", r.map_err(|e| e.to_string()), w), d(t)),
            }
        };
        ck(ctx, run(al, be, ga, de, &ic, a, b, c, &inp), Some(true), "valid")?;
        let o = one::<C::Fr>();
        ck(ctx, run(al + o, be, ga, de, &ic, a, b, c, &inp), Some(false), "other alpha")?;
        ck(ctx, run(al, be + o, ga, de, &ic, a, b, c, &inp), Some(false), "other beta")?;
        if acc != zero() {
            ck(ctx, run(al, be, ga + o, de, &ic, a, b, c, &inp), Some(false), "other gamma")?;
        }
        ck(ctx, run(al, be, ga, de + o, &ic, a, b, c, &inp), Some(false), "other delta")?;
        ck(ctx, run(al, be, ga, de, &ic, -a, b, c, &inp), Some(false), "negated a")?;
        ck(ctx, run(al, be, ga, de, &ic, a + o, b, c, &inp), Some(false), "other a")?;
        ck(ctx, run(al, be, ga, de, &ic, a, b + o, c, &inp), Some(false), "other b")?;
        ck(ctx, run(al, be, ga, de, &ic, a, b, c + o, &inp), Some(false), "other c")?;
        ck(ctx, run(al, be, ga, de, &ic, zero(), zero(), zero(), &inp), Some(al * be + acc * ga == zero()), "all-infinity proof")?;
        for k in 0..n {
            let mut x = inp.clone();
            x[k] = x[k] + o;
            ck(ctx, run(al, be, ga, de, &ic, a, b, c, &x), Some(ic[k + 1] == zero()), "one input changed")?;
            x[k] = -inp[k];
            ck(ctx, run(al, be, ga, de, &ic, a, b, c, &x), Some(inp[k] == zero() || ic[k + 1] == zero()), "one input negated")?;
        }
        for k in 0..ic.len() {
            let mut x = ic.clone();
            x[k] = x[k] + o;
            ck(ctx, run(al, be, ga, de, &x, a, b, c, &inp), Some(k > 0 && inp[k - 1] == zero()), "one key element changed")?;
        }
        let mut x = inp.clone();
        x.push(zero());
        ck(ctx, run(al, be, ga, de, &ic, a, b, c, &x), None, "one input too many")?;
        x.push(zero());
        ck(ctx, run(al, be, ga, de, &ic, a, b, c, &x), None, "two inputs too many")?;
        if n > 0 {
            ck(ctx, run(al, be, ga, de, &ic, a, b, c, &inp[..n - 1]), None, "one input missing")?;
            ck(ctx, run(al, be, ga, de, &ic, a, b, c, &[]), None, "no inputs")?;
        }
        ck(ctx, run(al, be, ga, de, &[], a, b, c, &inp), None, "key without elements")?;
    }
    Ok(())
}
/// a fixed circuit with several public inputs, some of them computed
#[derive(Clone)]
struct Three<F: Field> {
    x: Option<Num<F>>,
    y: Option<Num<F>>,
    bad: bool,
}
impl<F: Field> Default for Three<F> {
    fn default() -> Self {
        Three { x: None, y: None, bad: false }
    }
}
impl<F: Field> Circuit for Three<F> {
    type F = F;
    fn synthesize<CS: ConstraintSystem<F = F>>(&self, cs: &CS) {
        let x = CNum::alloc(cs, self.x.as_ref());
        let y = CNum::alloc(cs, self.y.as_ref());
        x.inputize();
        let p = &x * &y;
        p.inputize();
        let l = &x + &y * Num::from(3) + Num::from(5);
        l.inputize();
        let b = (&x - &y).is_zero();
        b.inputize();
        let q = &p * &l;
        let w = if self.bad { q.get_value().map(|v| v + Num::one()) } else { q.get_value() };
        let z = CNum::alloc(cs, w.as_ref());
        z.assert_eq(&q);
    }
    fn get_inputs(&self) -> Option<Vec<Num<F>>> {
        let (x, y) = (V(self.x?.0), V(self.y?.0));
        let e = if x == y { one() } else { zero() };
        Some(vec![x, x * y, x + y * int(3) + int(5), e].into_iter().map(|v| Num(v.0)).collect())
    }
}
fn end_to_end<C: Curve>(ctx: &mut Ctx) -> R<()> {
    let params = match attempt(|| prover::generate_keys::<C::E, Three<C::Fr>>()) {
        Ok(p) => p,
        Err(e) => return fail(format!("key generation panics: {}", e), C::NAME),
    };
    let tvk = truncate_verifying_key(&params.vk);
    for i in 0..ctx.n(4, 20) {
        let x: C::Fr = if i == 1 { zero().0 } else { ctx.rng.gen() };
        let y: C::Fr = if i == 2 { x } else { ctx.rng.gen() };
        let c = Three { x: Some(Num(x)), y: Some(Num(y)), bad: false };
        let d = |t: &str| format!("{} circuit Three x={} y={}: {}", C::NAME, big(x), big(y), t);
        let pr = match attempt(|| prover::prove::<C::E, _>(&c, &params)) {
            Ok(p) => p,
            Err(e) => return fail(format!("proving panics: {}", e), d("")),
        };
        let inp: Vec<C::Fr> = c.get_inputs().unwrap().into_iter().map(|v| v.0).collect();
        let ver = |pr: &Proof<C::E>, inp: &[C::Fr]| verify(&tvk, pr, inp).map_err(|e| e.to_string());
        if ver(&pr, &inp) != Ok(true) {
            return fail("an honest proof is rejected", d(""));
        }
        for k in 0..inp.len() {
            let mut v = inp.clone();
            v[k] = (V(v[k]) + one()).0;
            if ver(&pr, &v) != Ok(false) {
                return fail(format!("the proof is accepted with public input {} changed", k), d(""));
            }
        }
        let bad = Three { bad: true, ..c.clone() };
        if let Ok(p) = attempt(|| prover::prove::<C::E, _>(&bad, &params)) {
            if ver(&p, &inp) != Ok(false) {
                return fail("a proof of an unsatisfied circuit is accepted", d(""));
            }
        }
        let back = C::of_proof_data(&C::proof_data(&pr));
        if ver(&back, &inp) != Ok(true) {
            return fail("a proof is rejected after conversion to data and back", d(""));
        }
        ctx.nontrivial += 1;
        ctx.ok(|| d(""));
    }
    Ok(())
}
pub fn c19(ctx: &mut Ctx) -> R<()> {
    translate::<BN>(ctx)?;
    translate::<BLS>(ctx)?;
    verify_eq::<BN>(ctx)?;
    verify_eq::<BLS>(ctx)?;
    end_to_end::<BN>(ctx)?;
    end_to_end::<BLS>(ctx)
}

/// C20: whole circuits, synthesised without values and with random and special values
pub fn prog_shapes<F: Field>(ctx: &mut Ctx) -> R<()> {
    for _ in 0..ctx.n(300, 5000) {
        let n = ctx.rng.gen::<usize>() % 25;
        let mut p = Prog::<F>::random(ctx, n);
        let mut shapes = vec![];
        for k in 0..5 {
            let sp = [zero::<F>().0, one::<F>().0, (-one::<F>()).0];
            p.vals = match k {
                0 => None,
                1 => Some(vec![sp[0]; p.nvars]),
                2 => Some(vec![sp[1]; p.nvars]),
                3 => Some((0..p.nvars).map(|_| sp[ctx.rng.gen::<usize>() % 3]).collect()),
                _ => Some((0..p.nvars).map(|_| ctx.rng.gen()).collect()),
            };
            let rec = Rec::<F>::new();
            match attempt(|| p.synthesize(&rec)) {
                Ok(()) => shapes.push((p.vals.clone(), rec.log.borrow().clone(), rec.cons.borrow().iter().map(norm_con).collect::<Vec<_>>())),
                Err(_) if k > 0 => {}
                Err(e) => return fail(format!("synthesis without a witness fails: {}", e), format!("program {:?}", p.ops)),
            }
        }
        for s in &shapes[1..] {
            ctx.nontrivial += 1;
            if s.1 != shapes[0].1 || s.2 != shapes[0].2 {
                return fail("circuit shape depends on the witness: variables or constraints differ", format!("program {:?} values {:?} against none", p.ops, s.0));
            }
        }
        ctx.ok(|| format!("program {:?}", p.ops));
    }
    Ok(())
}
