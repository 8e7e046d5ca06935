//! C21 compound signals, C22 public inputs
use crate::gad::*;
use crate::rcs::*;
use crate::small::Fp;
use fawkes_crypto::circuit::{bool::CBool, ecc::*, num::CNum, poseidon::CMerkleProof};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal, sizedvec::SizedVec};
use fawkes_crypto::native::{ecc::*, num::Num, poseidon::MerkleProof};
use fawkes_crypto_derive::Signal;
use rand::Rng;
use std::marker::PhantomData;
use typenum::*;

/// leaf view of a compound signal; `B` marks boolean leaves
pub trait Leafy<'a, CS: 'a + ConstraintSystem>: Signal<'a, CS> {
    fn kinds(v: &mut Vec<bool>);
    fn put(it: &mut dyn Iterator<Item = CNum<'a, CS>>) -> Self;
    fn get(&self, v: &mut Vec<CNum<'a, CS>>);
    fn val(it: &mut dyn Iterator<Item = CS::F>) -> Self::Value;
    fn unval(x: &Self::Value, v: &mut Vec<CS::F>);
}
impl<'a, CS: 'a + ConstraintSystem> Leafy<'a, CS> for CNum<'a, CS> {
    fn kinds(v: &mut Vec<bool>) {
        v.push(false)
    }
    fn put(it: &mut dyn Iterator<Item = CNum<'a, CS>>) -> Self {
        it.next().unwrap()
    }
    fn get(&self, v: &mut Vec<CNum<'a, CS>>) {
        v.push(self.clone())
    }
    fn val(it: &mut dyn Iterator<Item = CS::F>) -> Num<CS::F> {
        Num(it.next().unwrap())
    }
    fn unval(x: &Num<CS::F>, v: &mut Vec<CS::F>) {
        v.push(x.0)
    }
}
impl<'a, CS: 'a + ConstraintSystem> Leafy<'a, CS> for CBool<'a, CS> {
    fn kinds(v: &mut Vec<bool>) {
        v.push(true)
    }
    fn put(it: &mut dyn Iterator<Item = CNum<'a, CS>>) -> Self {
        CBool(it.next().unwrap())
    }
    fn get(&self, v: &mut Vec<CNum<'a, CS>>) {
        v.push(self.0.clone())
    }
    fn val(it: &mut dyn Iterator<Item = CS::F>) -> bool {
        use ff::Field;
        !it.next().unwrap().is_zero()
    }
    fn unval(x: &bool, v: &mut Vec<CS::F>) {
        v.push(bit(*x))
    }
}
impl<'a, CS: 'a + ConstraintSystem, T: Leafy<'a, CS>, L: Unsigned> Leafy<'a, CS> for SizedVec<T, L> {
    fn kinds(v: &mut Vec<bool>) {
        for _ in 0..L::USIZE {
            T::kinds(v)
        }
    }
    fn put(it: &mut dyn Iterator<Item = CNum<'a, CS>>) -> Self {
        SizedVec((0..L::USIZE).map(|_| T::put(it)).collect(), PhantomData)
    }
    fn get(&self, v: &mut Vec<CNum<'a, CS>>) {
        for x in &self.0 {
            x.get(v)
        }
    }
    fn val(it: &mut dyn Iterator<Item = CS::F>) -> Self::Value {
        SizedVec((0..L::USIZE).map(|_| T::val(it)).collect(), PhantomData)
    }
    fn unval(x: &Self::Value, v: &mut Vec<CS::F>) {
        for x in &x.0 {
            T::unval(x, v)
        }
    }
}
macro_rules! tup {
    ($($t:ident $i:tt),*) => {
        impl<'a, CS: 'a + ConstraintSystem, $($t: Leafy<'a, CS>),*> Leafy<'a, CS> for ($($t,)*) {
            fn kinds(v: &mut Vec<bool>) { $($t::kinds(v);)* }
            fn put(it: &mut dyn Iterator<Item = CNum<'a, CS>>) -> Self { ($($t::put(it),)*) }
            fn get(&self, v: &mut Vec<CNum<'a, CS>>) { $(self.$i.get(v);)* }
            fn val(it: &mut dyn Iterator<Item = CS::F>) -> Self::Value { ($($t::val(it),)*) }
            fn unval(x: &Self::Value, v: &mut Vec<CS::F>) { $($t::unval(&x.$i, v);)* }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16);
macro_rules! stru {
    ($n:ident, $vn:ident, $($f:tt : $t:ty),*) => {
        impl<'a, CS: 'a + ConstraintSystem> Leafy<'a, CS> for $n<'a, CS> {
            fn kinds(v: &mut Vec<bool>) { $(<$t as Leafy<'a, CS>>::kinds(v);)* }
            fn put(it: &mut dyn Iterator<Item = CNum<'a, CS>>) -> Self { $n { $($f: <$t as Leafy<'a, CS>>::put(it)),* } }
            fn get(&self, v: &mut Vec<CNum<'a, CS>>) { $(self.$f.get(v);)* }
            fn val(it: &mut dyn Iterator<Item = CS::F>) -> Self::Value { $vn { $($f: <$t as Leafy<'a, CS>>::val(it)),* } }
            fn unval(x: &Self::Value, v: &mut Vec<CS::F>) { $(<$t as Leafy<'a, CS>>::unval(&x.$f, v);)* }
        }
    };
}
stru!(CEdwardsPoint, EdwardsPoint, x: CNum<'a, CS>, y: CNum<'a, CS>);
stru!(CMontgomeryPoint, MontgomeryPoint, x: CNum<'a, CS>, y: CNum<'a, CS>);
impl<'a, CS: 'a + ConstraintSystem, L: Unsigned> Leafy<'a, CS> for CMerkleProof<'a, CS, L> {
    fn kinds(v: &mut Vec<bool>) {
        <SizedVec<CNum<'a, CS>, L>>::kinds(v);
        <SizedVec<CBool<'a, CS>, L>>::kinds(v);
    }
    fn put(it: &mut dyn Iterator<Item = CNum<'a, CS>>) -> Self {
        CMerkleProof { sibling: Leafy::put(it), path: Leafy::put(it) }
    }
    fn get(&self, v: &mut Vec<CNum<'a, CS>>) {
        self.sibling.get(v);
        self.path.get(v);
    }
    fn val(it: &mut dyn Iterator<Item = CS::F>) -> Self::Value {
        MerkleProof { sibling: <SizedVec<CNum<'a, CS>, L>>::val(it), path: <SizedVec<CBool<'a, CS>, L>>::val(it) }
    }
    fn unval(x: &Self::Value, v: &mut Vec<CS::F>) {
        <SizedVec<CNum<'a, CS>, L>>::unval(&x.sibling, v);
        <SizedVec<CBool<'a, CS>, L>>::unval(&x.path, v);
    }
}
#[derive(Clone)]
pub struct NamedV<F: Field> {
    pub zeta: Num<F>,
    pub alpha: bool,
    pub mid: SizedVec<Num<F>, U2>,
    pub last: Num<F>,
}
#[derive(Clone, Signal)]
#[Value = "NamedV<CS::F>"]
pub struct NamedS<'a, CS: ConstraintSystem> {
    pub zeta: CNum<'a, CS>,
    pub alpha: CBool<'a, CS>,
    pub mid: SizedVec<CNum<'a, CS>, U2>,
    pub last: CNum<'a, CS>,
}
stru!(NamedS, NamedV, zeta: CNum<'a, CS>, alpha: CBool<'a, CS>, mid: SizedVec<CNum<'a, CS>, U2>, last: CNum<'a, CS>);
#[derive(Clone)]
pub struct TupV<F: Field>(pub bool, pub Num<F>, pub NamedV<F>);
#[derive(Clone, Signal)]
#[Value = "TupV<CS::F>"]
pub struct TupS<'a, CS: ConstraintSystem>(pub CBool<'a, CS>, pub CNum<'a, CS>, pub NamedS<'a, CS>);
stru!(TupS, TupV, 0: CBool<'a, CS>, 1: CNum<'a, CS>, 2: NamedS<'a, CS>);

pub trait Fam {
    type S<'a, CS: 'a + ConstraintSystem>: Leafy<'a, CS>;
    fn name() -> &'static str;
}
macro_rules! fam {
    ($n:ident, $a:lifetime, $cs:ident, $t:ty) => {
        pub struct $n;
        impl Fam for $n {
            type S<$a, $cs: $a + ConstraintSystem> = $t;
            fn name() -> &'static str {
                stringify!($t)
            }
        }
    };
}
fam!(FNum, 'a, CS, CNum<'a, CS>);
fam!(FBool, 'a, CS, CBool<'a, CS>);
fam!(FV1, 'a, CS, SizedVec<CNum<'a, CS>, U1>);
fam!(FV3, 'a, CS, SizedVec<CNum<'a, CS>, U3>);
fam!(FB2, 'a, CS, SizedVec<CBool<'a, CS>, U2>);
fam!(FT1, 'a, CS, (CNum<'a, CS>,));
fam!(FT2, 'a, CS, (CBool<'a, CS>, CNum<'a, CS>));
fam!(FT3, 'a, CS, (CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>));
fam!(FT5, 'a, CS, (CNum<'a, CS>, CBool<'a, CS>, CNum<'a, CS>, SizedVec<CBool<'a, CS>, U2>, CNum<'a, CS>));
fam!(FT17, 'a, CS, (CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CNum<'a, CS>, CBool<'a, CS>, CNum<'a, CS>));
fam!(FN, 'a, CS, (SizedVec<(CNum<'a, CS>, CBool<'a, CS>), U2>, CNum<'a, CS>));
fam!(FVV, 'a, CS, SizedVec<SizedVec<CNum<'a, CS>, U2>, U2>);
fam!(FEd, 'a, CS, CEdwardsPoint<'a, CS>);
fam!(FMo, 'a, CS, CMontgomeryPoint<'a, CS>);
fam!(FMp, 'a, CS, CMerkleProof<'a, CS, U2>);
fam!(FNamed, 'a, CS, NamedS<'a, CS>);
fam!(FTup, 'a, CS, TupS<'a, CS>);

fn kinds<F: Field, X: Fam>() -> Vec<bool> {
    let mut v = vec![];
    <X::S<'static, Rec<F>>>::kinds(&mut v);
    v
}
pub struct CompOp<X, F> {
    pub op: u8,
    pub k: Vec<F>,
    pub x: PhantomData<X>,
}
const ON: [&str; 6] = ["switch", "is_eq", "assert_eq", "assert_const", "linearize", "from_const"];
impl<X: Fam, F: Field> Gadget<F> for CompOp<X, F> {
    fn name(&self) -> String {
        format!("{} on {} (constant {:?})", ON[self.op as usize], X::name(), self.k)
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, cs: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let mut it = x.iter().cloned();
        let mut o = vec![];
        let put = |it: &mut dyn Iterator<Item = CNum<'a, CS>>| <X::S<'a, CS>>::put(it);
        match self.op {
            0 => {
                let b = CBool(it.next().unwrap());
                let (p, q) = (put(&mut it), put(&mut it));
                p.switch(&b, &q).get(&mut o);
            }
            1 => {
                let (p, q) = (put(&mut it), put(&mut it));
                o.push(p.is_eq(&q).0);
            }
            2 => {
                let (p, q) = (put(&mut it), put(&mut it));
                p.assert_eq(&q);
            }
            3 => {
                let p = put(&mut it);
                p.assert_const(&<X::S<'a, CS>>::val(&mut self.k.iter().cloned()));
            }
            4 => {
                o = put(&mut it).linearize();
            }
            _ => {
                let v = <X::S<'a, CS>>::val(&mut self.k.iter().cloned());
                <X::S<'a, CS>>::from_const(cs, &v).get(&mut o);
            }
        }
        o
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let n = kinds::<F, X>().len();
        match self.op {
            0 => out(if x[0].is_zero() { x[1 + n..].to_vec() } else { x[1..1 + n].to_vec() }),
            1 => out(vec![bit(x[..n] == x[n..])]),
            2 => when(x[..n] == x[n..]),
            3 => when(x[..] == self.k[..]),
            4 => out(x.to_vec()),
            _ => out(self.k.clone()),
        }
    }
}
fn rleaf<F: Field, X: Fam>(ctx: &mut Ctx) -> Vec<F> {
    kinds::<F, X>().into_iter().map(|b| if b { bit(ctx.rng.gen()) } else { ctx.rng.gen() }).collect()
}
/// a copy with one component changed
fn tweak<F: Field, X: Fam>(x: &[F], i: usize) -> Vec<F> {
    let mut y = x.to_vec();
    if kinds::<F, X>()[i] {
        y[i] = bit(x[i].is_zero());
    } else {
        y[i].add_assign(&F::one());
    }
    y
}
fn rm(ctx: &mut Ctx, n: usize) -> Vec<Mode> {
    (0..n).map(|_| [Mode::Var, Mode::Const, Mode::Lin, Mode::Sum][ctx.rng.gen::<usize>() % 4]).collect()
}
fn fam21<X: Fam, F: Field>(ctx: &mut Ctx, s: Sound) -> R<()> {
    let n = kinds::<F, X>().len();
    let s17 = if n > 8 && s == Sound::Exhaustive { Sound::No } else { s };
    let op = |op: u8, k: Vec<F>| CompOp::<X, F> { op, k, x: PhantomData };
    for rep in 0..ctx.n(4, 60) {
        let x = rleaf::<F, X>(ctx);
        let mut ys = vec![x.clone(), rleaf::<F, X>(ctx)];
        for i in 0..n {
            ys.push(tweak::<F, X>(&x, i));
        }
        // two components changed
        for i in 0..n {
            ys.push(tweak::<F, X>(&ys[2 + i], (i * 5 + 1 + rep) % n));
        }
        for y in &ys {
            let m1 = rm(ctx, 2 * n + 1);
            for m in [vec![Mode::Var], vec![Mode::Const], m1].iter() {
                let xy = [x.clone(), y.clone()].concat();
                check(ctx, &op(1, vec![]), &xy, m, s17)?;
                check(ctx, &op(2, vec![]), &xy, m, s17)?;
                check(ctx, &op(3, x.clone()), y, m, s17)?;
                for b in 0..2 {
                    let bxy = [vec![bit(b == 1)], xy.clone()].concat();
                    check(ctx, &op(0, vec![]), &bxy, m, s17)?;
                }
            }
        }
        check(ctx, &op(5, x.clone()), &[], &[Mode::Var], Sound::No)?;
        for m in 0..4 {
            let md = if m < 3 { vec![VCL[m]] } else { rm(ctx, n) };
            check(ctx, &op(4, vec![]), &x, &md, s17)?;
        }
        if !ctx.only_shape {
            direct::<X, F>(ctx, &x)?;
        }
    }
    Ok(())
}
fn vals<'c, F: Field, X: Fam>(v: Option<<X::S<'c, Rec<F>> as Signal<'c, Rec<F>>>::Value>) -> Option<Vec<F>> {
    v.map(|v| {
        let mut o = vec![];
        <X::S<'c, Rec<F>>>::unval(&v, &mut o);
        o
    })
}
fn direct<X: Fam, F: Field>(ctx: &mut Ctx, x: &[F]) -> R<()> {
    let n = x.len();
    let d = || format!("{} with components {:?}", X::name(), x);
    let bad = |w: String| fail::<()>(w, d());
    // allocation
    for some in [true, false].iter() {
        let cs = Rec::<F>::new();
        let v = <X::S<'_, Rec<F>>>::val(&mut x.iter().cloned());
        let s = match attempt(|| <X::S<'_, Rec<F>>>::alloc(&cs, if *some { Some(&v) } else { None })) {
            Ok(s) => s,
            Err(e) => return bad(format!("allocation panics: {}", e)),
        };
        let mut l = vec![];
        s.get(&mut l);
        if cs.log.borrow().iter().any(|e| e.0) {
            return bad("allocation creates public inputs".into());
        }
        if l.len() != n {
            return bad(format!("allocation gives {} components", l.len()));
        }
        let mut prev = 0;
        for (i, c) in l.iter().enumerate() {
            let lc = norm(&cs.lc(c));
            if lc.len() != 1 || lc[0].1 != F::one() || lc[0].0 <= prev {
                return bad(format!("component {} is not a fresh variable in order: {:?}", i, lc));
            }
            prev = lc[0].0;
            let got = c.get_value().map(|v| v.0);
            if got != if *some { Some(x[i]) } else { None } {
                return bad(format!("component {} is allocated with value {:?}", i, got));
            }
            if cs.values()[lc[0].0] != got {
                return bad(format!("variable {} is assigned {:?}", i, cs.values()[lc[0].0]));
            }
        }
        match attempt(|| vals::<F, X>(s.get_value())) {
            Ok(v) if v == if *some { Some(x.to_vec()) } else { None } => {}
            o => return bad(format!("value of the allocated signal (allocated with values: {}): {:?}", some, o)),
        }
        match attempt(|| vals::<F, X>(s.as_const())) {
            Ok(None) => {}
            o => return bad(format!("an allocated signal is reported constant: {:?}", o)),
        }
        if !std::ptr::eq(s.get_cs(), &cs) {
            return bad("wrong constraint system".into());
        }
        ctx.ok(d);
    }
    // value and constant detection with one component missing
    for i in 0..n + 1 {
        let cs = Rec::<F>::new();
        let one = |j: usize, missing: bool| {
            if missing {
                CNum::alloc(&cs, None)
            } else {
                CNum::from_const(&cs, &Num(x[j]))
            }
        };
        let l: Vec<CNum<Rec<F>>> = (0..n).map(|j| one(j, j == i)).collect();
        let s = <X::S<'_, Rec<F>>>::put(&mut l.into_iter());
        let want = if i == n { Some(x.to_vec()) } else { None };
        match attempt(|| vals::<F, X>(s.get_value())) {
            Ok(v) if v == want => {}
            o => return bad(format!("value with component {} unassigned is {:?}", i, o)),
        }
        match attempt(|| vals::<F, X>(s.as_const())) {
            Ok(v) if v == want => {}
            o => return bad(format!("as_const with component {} variable is {:?}", i, o)),
        }
        // assigned but not constant
        let l: Vec<CNum<Rec<F>>> = (0..n).map(|j| if j == i { CNum::alloc(&cs, Some(&Num(x[j]))) } else { one(j, false) }).collect();
        let s = <X::S<'_, Rec<F>>>::put(&mut l.into_iter());
        match attempt(|| (vals::<F, X>(s.get_value()), vals::<F, X>(s.as_const()))) {
            Ok(v) if v == (Some(x.to_vec()), want) => {}
            o => return bad(format!("value and as_const with component {} a variable: {:?}", i, o)),
        }
        ctx.ok(d);
    }
    ctx.nontrivial += 1;
    Ok(())
}
fn lens<L: Unsigned>(ctx: &mut Ctx) -> R<()> {
    for k in 0..L::USIZE + 5 {
        let r = attempt(|| (0..k).collect::<SizedVec<usize, L>>().0);
        match r {
            Ok(v) if k == L::USIZE && v == (0..k).collect::<Vec<_>>() => {}
            Err(_) if k != L::USIZE => {}
            o => return fail(format!("building from {} items gives {:?}", k, o), format!("length {}", L::USIZE)),
        }
        ctx.ok(|| format!("{} items for length {}", k, L::USIZE));
    }
    Ok(())
}
fn all21<F: Field>(ctx: &mut Ctx, s: Sound) -> R<()> {
    fam21::<FNum, F>(ctx, s)?;
    fam21::<FBool, F>(ctx, s)?;
    fam21::<FV1, F>(ctx, s)?;
    fam21::<FV3, F>(ctx, s)?;
    fam21::<FB2, F>(ctx, s)?;
    fam21::<FT1, F>(ctx, s)?;
    fam21::<FT2, F>(ctx, s)?;
    fam21::<FT3, F>(ctx, s)?;
    fam21::<FT5, F>(ctx, s)?;
    fam21::<FT17, F>(ctx, s)?;
    fam21::<FN, F>(ctx, s)?;
    fam21::<FVV, F>(ctx, s)?;
    fam21::<FEd, F>(ctx, s)?;
    fam21::<FMo, F>(ctx, s)?;
    fam21::<FMp, F>(ctx, s)?;
    fam21::<FNamed, F>(ctx, s)?;
    fam21::<FTup, F>(ctx, s)
}
pub fn c21(ctx: &mut Ctx) -> R<()> {
    all21::<Fp<7>>(ctx, Sound::Exhaustive)?;
    all21::<fawkes_crypto::native::bn256::Fr>(ctx, Sound::No)?;
    lens::<U0>(ctx)?;
    lens::<U1>(ctx)?;
    lens::<U2>(ctx)?;
    lens::<U3>(ctx)?;
    lens::<U8>(ctx)?;
    lens::<U33>(ctx)
}

fn inp1<X: Fam, F: Field>(ctx: &mut Ctx, x: &[F], modes: &[Mode], sound: Sound) -> R<()> {
    let n = x.len();
    let d = || format!("exposing {} components {:?} kinds {:?}", X::name(), x, modes);
    let mut shapes = vec![];
    for some in [true, false].iter() {
        let r = attempt(|| {
            let cs = Rec::<F>::new();
            let mut fixed = vec![];
            let l = mk(&cs, x, modes, *some, &mut fixed);
            let before = cs.log.borrow().len();
            let s = <X::S<'_, Rec<F>>>::put(&mut l.into_iter());
            s.inputize();
            let log = cs.log.borrow().clone();
            let wires: Vec<usize> = log.iter().enumerate().skip(before).filter(|e| (e.1).0).map(|e| e.0 + 1).collect();
            let vals = cs.values();
            let shape = Shape { cons: cs.cons.borrow().clone(), outs: wires.iter().map(|w| vec![(*w, F::one())]).collect(), log, nwires: cs.nwires(), fixed };
            (shape, vals, wires)
        });
        let (shape, vals, wires) = match r {
            Ok(r) => r,
            Err(e) => return fail(format!("panics: {}", e), d()),
        };
        if wires.len() != n {
            return fail(format!("{} public inputs for {} components", wires.len(), n), d());
        }
        if *some {
            let v: Option<Vec<F>> = vals.iter().cloned().collect();
            let v = match v {
                Some(v) => v,
                None => return fail("a variable is left without a value", d()),
            };
            for i in 0..n {
                if v[wires[i]] != x[i] {
                    return fail(format!("public input {} has value {:?}", i, v[wires[i]]), d());
                }
            }
            if let Some(i) = shape.cons.iter().position(|c| !sat(c, &v)) {
                return fail(format!("constraint {} is not satisfied by the computed witness", i), d());
            }
        }
        shapes.push(shape);
    }
    if let Err(e) = shapes[0].same(&shapes[1]) {
        return fail(format!("circuit shape depends on the witness: {}", e), d());
    }
    if sound != Sound::No && !ctx.only_shape {
        if let Some(e) = break_soundness(ctx, &shapes[1], &[x.to_vec()], None, sound) {
            return fail(e, d());
        }
    }
    ctx.nontrivial += 1;
    ctx.ok(d);
    Ok(())
}
fn fam22<X: Fam, F: Field>(ctx: &mut Ctx, s: Sound) -> R<()> {
    let n = kinds::<F, X>().len();
    for _ in 0..ctx.n(12, 200) {
        let x = rleaf::<F, X>(ctx);
        let r = rm(ctx, n);
        for m in [vec![Mode::Var], vec![Mode::Const], vec![Mode::Lin], vec![Mode::Sum], r].iter() {
            inp1::<X, F>(ctx, &x, m, s)?;
            let op = CompOp::<X, F> { op: 4, k: vec![], x: PhantomData };
            check(ctx, &op, &x, m, Sound::No)?;
        }
    }
    Ok(())
}
fn all22<F: Field>(ctx: &mut Ctx, s: Sound) -> R<()> {
    fam22::<FNum, F>(ctx, s)?;
    fam22::<FBool, F>(ctx, s)?;
    fam22::<FV1, F>(ctx, s)?;
    fam22::<FV3, F>(ctx, s)?;
    fam22::<FB2, F>(ctx, s)?;
    fam22::<FT1, F>(ctx, s)?;
    fam22::<FT2, F>(ctx, s)?;
    fam22::<FT3, F>(ctx, s)?;
    fam22::<FT5, F>(ctx, s)?;
    fam22::<FT17, F>(ctx, s)?;
    fam22::<FN, F>(ctx, s)?;
    fam22::<FVV, F>(ctx, s)?;
    fam22::<FEd, F>(ctx, s)?;
    fam22::<FMo, F>(ctx, s)?;
    fam22::<FMp, F>(ctx, s)?;
    fam22::<FNamed, F>(ctx, s)?;
    fam22::<FTup, F>(ctx, s)
}
pub fn c22(ctx: &mut Ctx) -> R<()> {
    all22::<Fp<7>>(ctx, Sound::Exhaustive)?;
    all22::<Fp<13>>(ctx, Sound::Exhaustive)?;
    for x in crate::gad::edge::<fawkes_crypto::native::bn256::Fr>(ctx) {
        for m in [Mode::Var, Mode::Const, Mode::Lin, Mode::Sum].iter() {
            inp1::<FNum, _>(ctx, &[x], &[*m], Sound::Attack)?;
        }
    }
    all22::<fawkes_crypto::native::bn256::Fr>(ctx, Sound::Attack)
}
