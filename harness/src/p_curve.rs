//! C08 group law, C09 native scalar multiplication, C10-C12 curve gadgets, C13 hash to curve
use crate::curves::*;
use crate::gad::*;
use crate::oracle::*;
use crate::small::Fp;
use fawkes_crypto::circuit::{bool::CBool, ecc::*, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal};
use fawkes_crypto::native::{bls12_381::JubJubBLS12_381, bn256::JubJubBN256, ecc::*, num::Num};
use num::bigint::BigUint;
use ff::Field as _;
use rand::Rng;

macro_rules! expect {
    ($ctx:expr, $got:expr, $want:expr, $what:expr, $in:expr) => {{
        let w = $want;
        match attempt(|| $got) {
            Ok(g) => {
                if g != w {
                    return fail(format!("{}: got {:?}, expected {:?}", $what, g, w), $in);
                }
            }
            Err(e) => return fail(format!("{}: panics ({}), expected {:?}", $what, e, w), $in),
        }
        $ctx.nontrivial += 1;
        $ctx.ok(|| format!("{} {}", $what, $in));
    }};
}
fn ex<F: Field>(p: Pt<F>, z: F) -> EdwardsPointEx<F> {
    let (x, y, z) = (V(p.0), V(p.1), V(z));
    EdwardsPointEx { x: Num((x * z).0), y: Num((y * z).0), t: Num((x * y * z).0), z: Num(z.0) }
}
/// affine coordinates of a projective point, checking the extended invariant
fn aff<F: Field>(q: &EdwardsPointEx<F>) -> Option<Pt<F>> {
    let (x, y, t, z) = (V(q.x.0), V(q.y.0), V(q.t.0), V(q.z.0));
    if z == zero() || t * z != x * y {
        return None;
    }
    Some(((x / z).0, (y / z).0))
}
fn mo<F: Field>(p: Option<Pt<F>>) -> Option<(F, F)> {
    p
}
fn mp<F: Field>(p: Option<MontgomeryPoint<F>>) -> Option<(F, F)> {
    p.map(|p| (p.x.0, p.y.0))
}
fn ep<F: Field>(p: EdwardsPoint<F>) -> (F, F) {
    (p.x.0, p.y.0)
}
fn law1<J: JubJubParams>(ctx: &mut Ctx, j: &J, p: Pt<J::Fr>, z: J::Fr) -> R<()> {
    let d = j.edwards_d().0;
    let i = || format!("point {:?}, projective z {:?}, curve d {:?}", p, z, d);
    let a = ept(p);
    let e = ex(p, z);
    expect!(ctx, ep(a.double()), ed_add(p, p, d), "affine double", i());
    expect!(ctx, aff(&e.double()), Some(ed_add(p, p, d)), "projective double", i());
    expect!(ctx, aff(&e.negate()), Some(ed_neg(p)), "negate", i());
    expect!(ctx, ep(a.mul_by_cofactor()), ed_double_n(p, 3, d), "affine cofactor multiple", i());
    expect!(ctx, aff(&e.mul_by_cofactor()), Some(ed_double_n(p, 3, d)), "projective cofactor multiple", i());
    expect!(ctx, a.is_zero(), p == ed_zero(), "affine identity test", i());
    expect!(ctx, e.is_zero(), p == ed_zero(), "projective identity test", i());
    expect!(ctx, ep(e.into_affine()), p, "projective to affine", i());
    expect!(ctx, aff(&a.into_extended()), Some(p), "affine to projective", i());
    expect!(ctx, a.is_in_curve(j), true, "affine curve test", i());
    expect!(ctx, e.is_in_curve(j), true, "projective curve test", i());
    expect!(ctx, mp(a.into_montgomery()), mo(to_mont(p)), "affine to Montgomery", i());
    expect!(ctx, mp(e.into_montgomery()), mo(to_mont(p)), "projective to Montgomery", i());
    if let Some(m) = to_mont(p) {
        let m = MontgomeryPoint { x: Num(m.0), y: Num(m.1) };
        expect!(ctx, ep(m.into_affine()), p, "Montgomery to affine", i());
        expect!(ctx, aff(&m.into_extended()), Some(p), "Montgomery to projective", i());
    }
    Ok(())
}
fn law2<J: JubJubParams>(ctx: &mut Ctx, j: &J, p: Pt<J::Fr>, z: J::Fr, q: Pt<J::Fr>, w: J::Fr) -> R<()> {
    let d = j.edwards_d().0;
    let i = || format!("points {:?} (z {:?}) and {:?} (z {:?}), curve d {:?}", p, z, q, w, d);
    expect!(ctx, ep(ept(p).add(&ept(q), j)), ed_add(p, q, d), "affine addition", i());
    expect!(ctx, aff(&ex(p, z).add(&ex(q, w), j)), Some(ed_add(p, q, d)), "projective addition", i());
    expect!(ctx, ex(p, z) == ex(q, w), p == q, "projective equality", i());
    expect!(ctx, ept(p) == ept(q), p == q, "affine equality", i());
    Ok(())
}
fn on_ex<F: Field>(x: F, y: F, t: F, z: F, d: F) -> bool {
    if z.is_zero() {
        return false;
    }
    let (x, y, t, z) = (V(x), V(y), V(t), V(z));
    t * z == x * y && ed_on(((x / z).0, (y / z).0), d)
}
fn offcurve<J: JubJubParams>(ctx: &mut Ctx, j: &J, x: J::Fr, y: J::Fr) -> R<()> {
    let d = j.edwards_d().0;
    let i = || format!("coordinates {:?}, {:?}, curve d {:?}", x, y, d);
    expect!(ctx, ept((x, y)).is_in_curve(j), ed_on((x, y), d), "affine curve test", i());
    expect!(ctx, ept((x, y)).is_zero(), (x, y) == ed_zero(), "identity test", i());
    Ok(())
}
fn offcurve_ex<J: JubJubParams>(ctx: &mut Ctx, j: &J, x: J::Fr, y: J::Fr, t: J::Fr, z: J::Fr) -> R<()> {
    let d = j.edwards_d().0;
    let i = || format!("projective coordinates {:?} {:?} {:?} {:?}, curve d {:?}", x, y, t, z, d);
    let e = EdwardsPointEx { x: Num(x), y: Num(y), t: Num(t), z: Num(z) };
    expect!(ctx, e.is_in_curve(j), on_ex(x, y, t, z, d), "projective curve test", i());
    Ok(())
}
fn rnz<F: Field>(ctx: &mut Ctx) -> F {
    loop {
        let x: F = ctx.rng.gen();
        if !x.is_zero() {
            return x;
        }
    }
}
fn tiny08<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 0);
    let pts = j.points();
    let z0 = ex::<Fp<P>>(ed_zero(), Fp(1));
    expect!(ctx, aff(&EdwardsPointEx::<Fp<P>>::zero()), aff(&z0), "projective identity", String::new());
    expect!(ctx, ep(EdwardsPoint::<Fp<P>>::zero()), ed_zero(), "affine identity", String::new());
    for p in &pts {
        for z in 1..P {
            law1(ctx, &j, *p, Fp(z))?;
        }
        for q in &pts {
            let (z, w) = (rnz(ctx), rnz(ctx));
            law2(ctx, &j, *p, z, *q, w)?;
            law2(ctx, &j, *p, Fp(1), *q, Fp(1))?;
        }
    }
    for x in 0..P {
        for y in 0..P {
            offcurve(ctx, &j, Fp(x), Fp(y))?;
            let z: Fp<P> = ctx.rng.gen();
            let t: Fp<P> = ctx.rng.gen();
            offcurve_ex(ctx, &j, Fp(x), Fp(y), t, z)?;
            offcurve_ex(ctx, &j, Fp(x), Fp(y), t, Fp(0))?;
            // right t for the z
            let z = rnz(ctx);
            offcurve_ex(ctx, &j, Fp(x), Fp(y), (V(Fp(x)) * V(Fp(y)) / V(z)).0, z)?;
            if ed_on((Fp(x), Fp(y)), j.d) {
                let e = ex((Fp(x), Fp(y)), z);
                offcurve_ex(ctx, &j, e.x.0, e.y.0, (-V(e.t.0)).0, e.z.0)?;
                offcurve_ex(ctx, &j, e.x.0, e.y.0, (V(e.t.0) + one()).0, e.z.0)?;
            }
        }
    }
    Ok(())
}
pub fn some_points<J: JubJubParams>(ctx: &mut Ctx, j: &J, n: usize) -> Vec<Pt<J::Fr>> {
    let d = j.edwards_d().0;
    let mut v = low_order(j);
    let low = v.clone();
    let g = (j.edwards_g().x.0, j.edwards_g().y.0);
    v.push(g);
    v.push(ed_neg(g));
    v.push(ed_add(g, g, d));
    for k in 0..n {
        let s: J::Fr = ctx.rng.gen();
        let p = ed_mul(g, &big(s), d);
        v.push(p);
        v.push(ed_add(p, low[k % 8], d));
    }
    // curve points from the literal dictionary
    let e: Vec<J::Fr> = ctx.lits.iter().map(|l| of_big(l)).collect();
    for x in e {
        let (x, dd) = (V(x), V(d));
        if let Some(y) = sqrt(((one() + x * x) / (one() - dd * x * x)).0) {
            v.push((x.0, y));
            v.push((x.0, (-V(y)).0));
        }
        if let Some(w) = sqrt(((x * x - one()) / (one() + dd * x * x)).0) {
            v.push((w, x.0));
        }
    }
    v
}
fn real08<J: JubJubParams>(ctx: &mut Ctx, j: &J) -> R<()> {
    let n = ctx.n(4, 30);
    let pts = some_points(ctx, j, n);
    let ed: Vec<J::Fr> = edge(ctx);
    for p in &pts {
        let z = pick(ctx, &ed);
        let z = if z.is_zero() { J::Fr::one() } else { z };
        law1(ctx, j, *p, J::Fr::one())?;
        law1(ctx, j, *p, z)?;
        let qs: Vec<_> = if pts.len() < 60 { pts.clone() } else { (0..20).map(|_| pts[ctx.rng.gen::<usize>() % pts.len()]).collect() };
        for q in qs {
            let w = rnz(ctx);
            law2(ctx, j, *p, z, q, w)?;
        }
        offcurve(ctx, j, (V(p.0) + one()).0, p.1)?;
        offcurve(ctx, j, p.1, p.0)?;
        let e = ex(*p, z);
        offcurve_ex(ctx, j, e.x.0, e.y.0, e.t.0, J::Fr::zero())?;
        offcurve_ex(ctx, j, e.x.0, e.y.0, (-V(e.t.0)).0, z)?;
        let t = rnz(ctx);
        offcurve_ex(ctx, j, e.x.0, e.y.0, t, z)?;
    }
    for x in &ed {
        let y = pick(ctx, &ed);
        offcurve(ctx, j, *x, y)?;
    }
    Ok(())
}
pub fn c08(ctx: &mut Ctx) -> R<()> {
    tiny08::<101, 11>(ctx, 12, 2)?;
    tiny08::<109, 13>(ctx, 11, 2)?;
    if ctx.thorough {
        tiny08::<89, 13>(ctx, 19, 3)?;
        tiny08::<149, 17>(ctx, 3, 2)?;
    }
    real08(ctx, &JubJubBN256::new())?;
    real08(ctx, &JubJubBLS12_381::new())
}

fn mul1<J: JubJubParams>(ctx: &mut Ctx, j: &J, p: Pt<J::Fr>, s: J::Fs, z: J::Fr) -> R<()> {
    let d = j.edwards_d().0;
    let i = || format!("point {:?} z {:?} scalar {:?}", p, z, s);
    let want = ed_mul(p, &big(s), d);
    expect!(ctx, ep(ept(p).mul(Num(s), j)), want, "scalar multiplication", i());
    expect!(ctx, aff(&ex(p, z).mul(Num(s), j)), Some(want), "projective scalar multiplication", i());
    Ok(())
}
fn insub1<J: JubJubParams>(ctx: &mut Ctx, j: &J, p: Pt<J::Fr>, z: J::Fr) -> R<()> {
    expect!(ctx, ex(p, z).is_in_subgroup(j), in_sub(p, j), "subgroup test", format!("point {:?} z {:?}", p, z));
    Ok(())
}
fn dec1<J: JubJubParams>(ctx: &mut Ctx, j: &J, x: J::Fr) -> R<()> {
    expect!(ctx, EdwardsPoint::subgroup_decompress(Num(x), j).map(ep), decompress(x, j), "decompression", format!("x {:?}", x));
    Ok(())
}
fn fory<J: JubJubParams>(ctx: &mut Ctx, j: &J, y: J::Fr) -> R<()> {
    let (vy, d) = (V(y), V(j.edwards_d().0));
    let x = sqrt(((vy * vy - one()) / (one() + d * vy * vy)).0);
    for sign in [false, true].iter().cloned() {
        let want = x.map(|x| (if is_odd(x) != sign { (-V(x)).0 } else { x }, y));
        expect!(ctx, EdwardsPoint::get_for_y(Num(y), sign, j).map(ep), want, "recovery from y", format!("y {:?} odd {}", y, sign));
    }
    Ok(())
}
fn tiny09<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 1);
    for p in j.points() {
        for s in 0..Q {
            let z = rnz(ctx);
            mul1(ctx, &j, p, Fp(s), z)?;
        }
        insub1(ctx, &j, p, Fp(1))?;
        let z = rnz(ctx);
        insub1(ctx, &j, p, z)?;
    }
    for x in elems::<Fp<P>>() {
        dec1(ctx, &j, x)?;
        fory(ctx, &j, x)?;
    }
    Ok(())
}
fn rand_point<J: JubJubParams>(ctx: &mut Ctx, j: &J) -> R<()> {
    for _ in 0..ctx.n(10, 100) {
        let p = EdwardsPoint::rand(&mut ctx.rng, j);
        if !ed_on(ep(p), j.edwards_d().0) {
            return fail("random point is not on the curve", format!("{:?}", p));
        }
    }
    Ok(())
}
fn real09<J: JubJubParams>(ctx: &mut Ctx, j: &J) -> R<()> {
    let n = ctx.n(4, 30);
    let pts = some_points(ctx, j, n);
    let ss: Vec<J::Fs> = edge(ctx);
    for p in &pts {
        for _ in 0..ctx.n(5, 40) {
            let s = pick(ctx, &ss);
            let z = rnz(ctx);
            mul1(ctx, j, *p, s, z)?;
        }
        let z = rnz(ctx);
        insub1(ctx, j, *p, z)?;
        dec1(ctx, j, p.0)?;
        fory(ctx, j, p.1)?;
    }
    let g = (j.edwards_g().x.0, j.edwards_g().y.0);
    for s in &ss {
        mul1(ctx, j, g, *s, J::Fr::one())?;
    }
    let e: Vec<J::Fr> = edge(ctx);
    for x in &e {
        dec1(ctx, j, *x)?;
        fory(ctx, j, *x)?;
    }
    rand_point(ctx, j)
}
pub fn c09(ctx: &mut Ctx) -> R<()> {
    tiny09::<101, 11>(ctx, 12, 2)?;
    tiny09::<109, 13>(ctx, 11, 2)?;
    tiny09::<73, 11>(ctx, 5, 5)?;
    if ctx.thorough {
        tiny09::<89, 13>(ctx, 19, 3)?;
        tiny09::<137, 17>(ctx, 10, 3)?;
        tiny09::<149, 17>(ctx, 3, 2)?;
    }
    real09(ctx, &JubJubBN256::new())?;
    real09(ctx, &JubJubBLS12_381::new())
}

pub struct CurveOp<'j, J> {
    pub op: u8,
    pub j: &'j J,
}
const CN: [&str; 8] = ["edwards add", "edwards double", "montgomery add", "montgomery double", "edwards to montgomery", "montgomery to edwards", "assert in curve", "cofactor multiple"];
impl<'j, J: JubJubParams> Gadget<J::Fr> for CurveOp<'j, J> {
    fn name(&self) -> String {
        format!("{} (d {:?})", CN[self.op as usize], self.j.edwards_d())
    }
    fn build<'a, CS: ConstraintSystem<F = J::Fr>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let e = |i: usize| CEdwardsPoint { x: x[i].clone(), y: x[i + 1].clone() };
        let m = |i: usize| CMontgomeryPoint { x: x[i].clone(), y: x[i + 1].clone() };
        let re = |p: CEdwardsPoint<'a, CS>| vec![p.x, p.y];
        let rm = |p: CMontgomeryPoint<'a, CS>| vec![p.x, p.y];
        match self.op {
            0 => re(e(0).add(&e(2), self.j)),
            1 => re(e(0).double(self.j)),
            2 => rm(m(0).add(&m(2), self.j)),
            3 => rm(m(0).double(self.j)),
            4 => rm(e(0).into_montgomery()),
            5 => re(m(0).into_edwards()),
            6 => {
                e(0).assert_in_curve(self.j);
                vec![]
            }
            _ => re(e(0).mul_by_cofactor(self.j)),
        }
    }
    /// inputs of the Montgomery operations are Montgomery coordinates
    fn spec(&self, x: &[J::Fr]) -> Spec<J::Fr> {
        let d = self.j.edwards_d().0;
        let p = (x[0], x[1]);
        let o = |p: Pt<J::Fr>| out(vec![p.0, p.1]);
        let back = |m: Pt<J::Fr>| -> Pt<J::Fr> {
            let (a, b) = (V(m.0), V(m.1));
            if m.0.is_zero() { (J::Fr::zero(), (-one::<J::Fr>()).0) } else { ((a / b).0, ((a - one()) / (a + one())).0) }
        };
        match self.op {
            0 => o(ed_add(p, (x[2], x[3]), d)),
            1 => o(ed_add(p, p, d)),
            2 => {
                if x[0] == x[2] {
                    return Spec::Any;
                }
                to_mont(ed_add(back(p), back((x[2], x[3])), d)).map(o).unwrap_or(Spec::Any)
            }
            3 => {
                if x[1].is_zero() {
                    return Spec::Any;
                }
                to_mont(ed_add(back(p), back(p), d)).map(o).unwrap_or(Spec::Any)
            }
            4 => {
                if x[0].is_zero() {
                    return Spec::Any;
                }
                o(to_mont(p).unwrap())
            }
            5 => o(back(p)),
            6 => when(ed_on(p, d)),
            _ => o(ed_double_n(p, 3, d)),
        }
    }
}
fn flat<F: Field>(v: &[Pt<F>]) -> Vec<F> {
    v.iter().flat_map(|p| vec![p.0, p.1]).collect()
}
fn rmodes(ctx: &mut Ctx, n: usize) -> Vec<Mode> {
    (0..n).map(|_| ALL[ctx.rng.gen::<usize>() % 5]).collect()
}
fn ops10<J: JubJubParams>(ctx: &mut Ctx, j: &J, p: Pt<J::Fr>, q: Pt<J::Fr>, s: Sound) -> R<()> {
    let ms: Vec<Vec<Mode>> = vec![vec![Mode::Var], vec![Mode::Const], rmodes(ctx, 4)];
    for m in &ms[..] {
        for op in [0u8, 1, 7, 6].iter() {
            check(ctx, &CurveOp { op: *op, j }, &flat(&[p, q])[..if *op == 0 { 4 } else { 2 }], m, s)?;
        }
        if p != ed_zero() {
            check(ctx, &CurveOp { op: 4, j }, &flat(&[p]), m, s)?;
            let mp = to_mont(p).unwrap();
            check(ctx, &CurveOp { op: 5, j }, &flat(&[mp]), m, s)?;
            check(ctx, &CurveOp { op: 3, j }, &flat(&[mp]), m, s)?;
            if q != ed_zero() {
                check(ctx, &CurveOp { op: 2, j }, &flat(&[mp, to_mont(q).unwrap()]), m, s)?;
            }
        }
    }
    Ok(())
}
fn tiny10<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 2);
    let pts = j.points();
    for (i, p) in pts.iter().enumerate() {
        for (k, q) in pts.iter().enumerate() {
            if ctx.thorough || (i + k) % 5 == 0 || p == q || *q == ed_neg(*p) || i < 2 || k < 2 {
                ops10(ctx, &j, *p, *q, Sound::Exhaustive)?;
            }
        }
    }
    for x in 0..P {
        for y in 0..P {
            check(ctx, &CurveOp { op: 6, j: &j }, &[Fp(x), Fp(y)], &[Mode::Var], Sound::Exhaustive)?;
            if (x + y) % 7 == 0 {
                check(ctx, &CurveOp { op: 6, j: &j }, &[Fp(x), Fp(y)], &[Mode::Const], Sound::Exhaustive)?;
                check(ctx, &CurveOp { op: 6, j: &j }, &[Fp(x), Fp(y)], &[Mode::Lin], Sound::Exhaustive)?;
            }
        }
    }
    Ok(())
}
fn real10<J: JubJubParams>(ctx: &mut Ctx, j: &J) -> R<()> {
    let n = ctx.n(2, 20);
    let pts = some_points(ctx, j, n);
    for p in &pts {
        for k in 0..ctx.n(4, 12) {
            let q = pts[ctx.rng.gen::<usize>() % pts.len()];
            ops10(ctx, j, *p, q, if k == 0 { Sound::Attack } else { Sound::No })?;
        }
        check(ctx, &CurveOp { op: 6, j }, &[p.1, p.0], &[Mode::Var], Sound::Attack)?;
        check(ctx, &CurveOp { op: 6, j }, &[(V(p.0) + one()).0, p.1], &[Mode::Lin], Sound::Attack)?;
    }
    Ok(())
}
pub fn c10(ctx: &mut Ctx) -> R<()> {
    tiny10::<101, 11>(ctx, 12, 2)?;
    if ctx.thorough {
        tiny10::<109, 13>(ctx, 11, 2)?;
        tiny10::<149, 17>(ctx, 3, 2)?;
    }
    real10(ctx, &JubJubBN256::new())?;
    real10(ctx, &JubJubBLS12_381::new())
}

pub struct CMul<'j, J> {
    pub j: &'j J,
}
impl<'j, J: JubJubParams> Gadget<J::Fr> for CMul<'j, J> {
    fn name(&self) -> String {
        format!("scalar multiplication (point, bits) d {:?}", self.j.edwards_d())
    }
    fn build<'a, CS: ConstraintSystem<F = J::Fr>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let p = CEdwardsPoint { x: x[0].clone(), y: x[1].clone() };
        let bits: Vec<CBool<CS>> = x[2..].iter().map(|b| b.into_bool()).collect();
        let r = p.mul(&bits, self.j);
        vec![r.x, r.y]
    }
    fn spec(&self, x: &[J::Fr]) -> Spec<J::Fr> {
        let mut n = BigUint::from(0u32);
        for b in x[2..].iter().rev() {
            n = (n << 1usize) + BigUint::from(if b.is_zero() { 0u32 } else { 1 });
        }
        let r = ed_mul((x[0], x[1]), &n, self.j.edwards_d().0);
        out(vec![r.0, r.1])
    }
}
fn tiny11<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 3);
    for p in j.subgroup() {
        for n in 0..if ctx.thorough { 8usize } else { 6 } {
            for v in 0..1u64 << n {
                let mut x = vec![p.0, p.1];
                x.extend((0..n).map(|i| bit::<Fp<P>>(v >> i & 1 == 1)));
                let vc = |m: [Mode; 2], b: Mode| {
                    let mut r = m.to_vec();
                    r.extend(vec![b; n.max(1)]);
                    r
                };
                let s = if n < 5 { Sound::Exhaustive } else { Sound::No };
                check(ctx, &CMul { j: &j }, &x, &vc([Mode::Const, Mode::Const], Mode::Var), s)?;
                check(ctx, &CMul { j: &j }, &x, &vc([Mode::Var, Mode::Var], Mode::Var), s)?;
                let a = [[Mode::Const, Mode::Var], [Mode::Var, Mode::Const], [Mode::Lin, Mode::Sum], [Mode::Const, Mode::Const]][(v % 4) as usize];
                let b = [Mode::Const, Mode::Lin, Mode::Sum][(v % 3) as usize];
                check(ctx, &CMul { j: &j }, &x, &vc(a, b), s)?;
                let mut r = vc([Mode::Const, Mode::Const], b);
                for k in 2..r.len() {
                    r[k] = ALL[ctx.rng.gen::<usize>() % 4];
                }
                check(ctx, &CMul { j: &j }, &x, &r, Sound::No)?;
            }
        }
    }
    // longer lists wrap around the group order
    for _ in 0..ctx.n(40, 400) {
        let sub = j.subgroup();
        let p = sub[ctx.rng.gen::<usize>() % sub.len()];
        let n = 6 + ctx.rng.gen::<usize>() % 40;
        let mut x = vec![p.0, p.1];
        x.extend((0..n).map(|_| bit::<Fp<P>>(ctx.rng.gen())));
        let m = if ctx.rng.gen() { Mode::Const } else { Mode::Var };
        let mut r = vec![m, m];
        r.extend(vec![Mode::Var; n]);
        check(ctx, &CMul { j: &j }, &x, &r, Sound::No)?;
    }
    Ok(())
}
fn real11<J: JubJubParams>(ctx: &mut Ctx, j: &J) -> R<()> {
    let d = j.edwards_d().0;
    let g = (j.edwards_g().x.0, j.edwards_g().y.0);
    let mut lens: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 31, 64, 250, 251, 252, 253, 254, 255, 256, 257];
    let l: Vec<usize> = ctx.lits.iter().filter_map(|l| l.to_string().parse::<usize>().ok()).filter(|l| *l < 400).collect();
    lens.extend(l);
    lens.sort();
    lens.dedup();
    for n in lens {
        for k in 0..ctx.n(1, 4) {
            let s: J::Fr = ctx.rng.gen();
            let ps = [ed_zero(), g, ed_mul(g, &big(s), d), ed_neg(g)];
            for (pi, p) in ps.iter().enumerate() {
                if !ctx.thorough && (pi + n) % 2 == 0 && n > 12 {
                    continue;
                }
                let mut x = vec![p.0, p.1];
                let ones = k == 0 && pi == 1;
                x.extend((0..n).map(|_| bit::<J::Fr>(ones || ctx.rng.gen())));
                let snd = if n < 5 { Sound::Attack } else { Sound::No };
                for m in [Mode::Const, Mode::Var, Mode::Lin].iter() {
                    let mut r = vec![*m, *m];
                    r.extend(vec![if k % 2 == 0 { Mode::Var } else { Mode::Lin }; n.max(1)]);
                    check(ctx, &CMul { j }, &x, &r, snd)?;
                }
            }
        }
    }
    // scalars near the group order
    for k in -2i32..3 {
        let v = if k < 0 { order::<J>() - BigUint::from((-k) as u32) } else { order::<J>() + BigUint::from(k as u32) };
        for m in [Mode::Const, Mode::Var].iter() {
            let mut x = vec![g.0, g.1];
            let b = bits_of_big(&v, 254);
            x.extend(b.iter().map(|b| bit::<J::Fr>(*b)));
            let mut r = vec![*m, *m];
            r.extend(vec![Mode::Var; 254]);
            check(ctx, &CMul { j }, &x, &r, Sound::No)?;
        }
    }
    Ok(())
}
pub fn c11(ctx: &mut Ctx) -> R<()> {
    tiny11::<101, 11>(ctx, 12, 2)?;
    tiny11::<109, 13>(ctx, 11, 2)?;
    if ctx.thorough {
        tiny11::<89, 13>(ctx, 19, 3)?;
        tiny11::<149, 17>(ctx, 3, 2)?;
    }
    real11(ctx, &JubJubBN256::new())?;
    real11(ctx, &JubJubBLS12_381::new())
}

pub struct Sub<'j, J> {
    pub j: &'j J,
}
impl<'j, J: JubJubParams> Gadget<J::Fr> for Sub<'j, J> {
    fn name(&self) -> String {
        format!("assert in subgroup (d {:?})", self.j.edwards_d())
    }
    fn build<'a, CS: ConstraintSystem<F = J::Fr>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        CEdwardsPoint { x: x[0].clone(), y: x[1].clone() }.assert_in_subgroup(self.j);
        vec![]
    }
    fn spec(&self, x: &[J::Fr]) -> Spec<J::Fr> {
        when(in_sub((x[0], x[1]), self.j))
    }
}
pub struct Decomp<'j, J> {
    pub j: &'j J,
}
impl<'j, J: JubJubParams> Gadget<J::Fr> for Decomp<'j, J> {
    fn name(&self) -> String {
        format!("subgroup decompression (d {:?})", self.j.edwards_d())
    }
    fn build<'a, CS: ConstraintSystem<F = J::Fr>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let p = CEdwardsPoint::subgroup_decompress(&x[0], self.j);
        vec![p.x, p.y]
    }
    fn spec(&self, x: &[J::Fr]) -> Spec<J::Fr> {
        match decompress(x[0], self.j) {
            Some(p) => out(vec![p.0, p.1]),
            None => reject(),
        }
    }
}
fn tiny12<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 4);
    for x in elems::<Fp<P>>() {
        for m in [Mode::Var, Mode::Const, Mode::Lin].iter() {
            check(ctx, &Decomp { j: &j }, &[x], &[*m], Sound::Exhaustive)?;
        }
    }
    for p in j.points() {
        for m in [Mode::Var, Mode::Const, Mode::Lin, Mode::Sum].iter() {
            check(ctx, &Sub { j: &j }, &[p.0, p.1], &[*m], Sound::Exhaustive)?;
        }
    }
    for x in 0..P {
        for y in 0..P {
            if ctx.thorough || (3 * x + y) % 6 == 0 {
                check(ctx, &Sub { j: &j }, &[Fp(x), Fp(y)], &[Mode::Var], Sound::Exhaustive)?;
            }
        }
    }
    Ok(())
}
fn real12<J: JubJubParams>(ctx: &mut Ctx, j: &J) -> R<()> {
    let n = ctx.n(3, 20);
    let pts = some_points(ctx, j, n);
    for (i, p) in pts.iter().enumerate() {
        let m = [Mode::Var, Mode::Lin, Mode::Const][i % 3];
        check(ctx, &Sub { j }, &[p.0, p.1], &[m], Sound::Attack)?;
        check(ctx, &Sub { j }, &[p.0, (-V(p.1)).0], &[m], Sound::No)?;
        check(ctx, &Sub { j }, &[p.1, p.0], &[m], Sound::No)?;
        check(ctx, &Decomp { j }, &[p.0], &[m], Sound::Attack)?;
    }
    let e: Vec<J::Fr> = edge(ctx);
    for x in e {
        check(ctx, &Decomp { j }, &[x], &[Mode::Var], Sound::No)?;
    }
    Ok(())
}
pub fn c12(ctx: &mut Ctx) -> R<()> {
    tiny12::<101, 11>(ctx, 12, 2)?;
    tiny12::<73, 11>(ctx, 5, 5)?;
    if ctx.thorough {
        tiny12::<109, 13>(ctx, 11, 2)?;
        tiny12::<149, 17>(ctx, 3, 2)?;
    }
    real12(ctx, &JubJubBN256::new())?;
    real12(ctx, &JubJubBLS12_381::new())
}

pub struct H2c<'j, J> {
    pub j: &'j J,
}
impl<'j, J: JubJubParams> Gadget<J::Fr> for H2c<'j, J> {
    fn name(&self) -> String {
        format!("map to curve (d {:?} u {:?})", self.j.edwards_d(), self.j.montgomery_u())
    }
    fn build<'a, CS: ConstraintSystem<F = J::Fr>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let p = CEdwardsPoint::from_scalar(&x[0], self.j);
        vec![p.x, p.y]
    }
    fn spec(&self, x: &[J::Fr]) -> Spec<J::Fr> {
        match swu(x[0], self.j) {
            Some(p) => out(vec![p.0, p.1]),
            None => Spec::Any,
        }
    }
}
fn h1<J: JubJubParams>(ctx: &mut Ctx, j: &J, t: J::Fr) -> R<()> {
    if let Some(p) = swu(t, j) {
        expect!(ctx, ep(EdwardsPoint::from_scalar(Num(t), j)), p, "map to curve", format!("t {:?}", t));
        expect!(
            ctx,
            ep(EdwardsPoint::from_scalar_raw(Num(t), j.montgomery_a(), j.montgomery_b(), j.montgomery_u())),
            p,
            "map to curve (raw)",
            format!("t {:?}", t)
        );
        if !in_sub(p, j) {
            return fail("mapped point is not in the subgroup", format!("t {:?}", t));
        }
    }
    Ok(())
}
fn tiny13<const P: u64, const Q: u64>(ctx: &mut Ctx, d: u64, u: u64) -> R<()> {
    let j = Tiny::<P, Q>::new(d, u, 5);
    for t in elems::<Fp<P>>() {
        if !ctx.only_shape {
            h1(ctx, &j, t)?;
        }
        for m in VCL.iter() {
            check(ctx, &H2c { j: &j }, &[t], &[*m], Sound::Exhaustive)?;
        }
    }
    Ok(())
}
fn real13<J: JubJubParams>(ctx: &mut Ctx, j: &J) -> R<()> {
    let e: Vec<J::Fr> = edge(ctx);
    let mut n = 0;
    for t in e.iter() {
        h1(ctx, j, *t)?;
    }
    for _ in 0..ctx.n(40, 1000) {
        let t = ctx.rng.gen();
        h1(ctx, j, t)?;
    }
    for (i, t) in e.iter().enumerate() {
        if ctx.thorough || i % 3 == 0 || i < 8 {
            check(ctx, &H2c { j }, &[*t], &[VCL[n % 3]], if n == 0 || (ctx.thorough && n < 10) { Sound::Attack } else { Sound::No })?;
            n += 1;
        }
    }
    Ok(())
}
pub fn c13(ctx: &mut Ctx) -> R<()> {
    tiny13::<101, 11>(ctx, 12, 2)?;
    tiny13::<109, 13>(ctx, 11, 2)?;
    if ctx.thorough {
        tiny13::<73, 11>(ctx, 5, 5)?;
        tiny13::<149, 17>(ctx, 3, 2)?;
    }
    real13(ctx, &JubJubBN256::new())?;
    real13(ctx, &JubJubBLS12_381::new())
}
