#![allow(unused_imports)]
//! C01 arithmetic, C02 assertions and tests, C03 selection and lookup
use crate::gad::*;
use crate::oracle::*;
use crate::rcs::*;
use crate::small::Fp;
use fawkes_crypto::circuit::{bool::CBool, mux::c_mux3, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal};
use fawkes_crypto::native::num::Num;
use rand::Rng;

pub struct Bin {
    pub op: u8,
    pub form: u8,
}
const OPS: [&str; 4] = ["+", "-", "*", "/"];
const FORMS: [&str; 6] = ["val op val", "val op ref", "ref op val", "ref op ref", "op= ref", "op= val"];
macro_rules! forms {
    ($form:expr, $a:expr, $b:expr, $op:tt, $opa:tt) => {{
        let (a, b) = ($a.clone(), $b.clone());
        match $form {
            0 => a $op b,
            1 => a $op &b,
            2 => &a $op b,
            3 => &a $op &b,
            4 => { let mut a = a; a $opa &b; a }
            _ => { let mut a = a; a $opa b; a }
        }
    }};
}
macro_rules! forms4 {
    ($form:expr, $a:expr, $b:expr, $op:tt) => {{
        let (a, b) = ($a.clone(), $b.clone());
        match $form % 4 {
            0 => a $op b,
            1 => a $op &b,
            2 => &a $op b,
            _ => &a $op &b,
        }
    }};
}
fn apply<F: Field>(op: u8, a: F, b: F) -> Option<F> {
    let (a, b) = (V(a), V(b));
    Some(match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        _ => {
            if b == zero() {
                return None;
            }
            a / b
        }
    }
    .0)
}
impl<F: Field> Gadget<F> for Bin {
    fn name(&self) -> String {
        format!("signal {} signal ({})", OPS[self.op as usize], FORMS[self.form as usize])
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        vec![match self.op {
            0 => forms!(self.form, x[0], x[1], +, +=),
            1 => forms!(self.form, x[0], x[1], -, -=),
            2 => forms!(self.form, x[0], x[1], *, *=),
            _ => forms!(self.form, x[0], x[1], /, /=),
        }]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        match apply(self.op, x[0], x[1]) {
            Some(v) => out(vec![v]),
            None => Spec::Any,
        }
    }
}
/// signal op constant, constant op signal; the constant is not an input of the R1CS
pub struct Mixed<F> {
    pub op: u8,
    pub form: u8,
    pub swap: bool,
    pub k: F,
}
impl<F: Field> Gadget<F> for Mixed<F> {
    fn name(&self) -> String {
        if self.swap {
            format!("constant {:?} {} signal ({})", self.k, OPS[self.op as usize], FORMS[self.form as usize % 4])
        } else {
            format!("signal {} constant {:?} ({})", OPS[self.op as usize], self.k, FORMS[self.form as usize])
        }
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let k = Num(self.k);
        vec![if self.swap {
            match self.op {
                0 => forms4!(self.form, k, x[0], +),
                1 => forms4!(self.form, k, x[0], -),
                _ => forms4!(self.form, k, x[0], *),
            }
        } else {
            match self.op {
                0 => forms!(self.form, x[0], k, +, +=),
                1 => forms!(self.form, x[0], k, -, -=),
                2 => forms!(self.form, x[0], k, *, *=),
                _ => forms!(self.form, x[0], k, /, /=),
            }
        }]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let r = if self.swap { apply(self.op, self.k, x[0]) } else { apply(self.op, x[0], self.k) };
        match r {
            Some(v) => out(vec![v]),
            None => Spec::Any,
        }
    }
}
pub struct Un(pub u8);
impl<F: Field> Gadget<F> for Un {
    fn name(&self) -> String {
        ["-signal", "-&signal", "square", "signal - itself", "(a+1)-a", "clone", "as bool and back"][self.0 as usize].into()
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let a = x[0].clone();
        vec![match self.0 {
            0 => -a,
            1 => -&a,
            2 => a.square(),
            3 => &a - &a,
            4 => (&a + Num(F::one())) - &a,
            5 => a.clone(),
            _ => a.into_bool().into_num(),
        }]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let a = V(x[0]);
        out(vec![match self.0 {
            0 | 1 => -a,
            2 => a * a,
            3 => zero(),
            4 => one(),
            _ => a,
        }
        .0])
    }
}

fn all_ops<F: Field>(ctx: &mut Ctx, xs: &[F], modes: &[Mode], sound: Sound) -> R<()> {
    let both: Vec<Vec<Mode>> = modes.iter().flat_map(|a| modes.iter().map(move |b| vec![*a, *b])).collect();
    for op in 0..4 {
        for form in 0..6 {
            for m in &both {
                for a in xs {
                    for b in xs {
                        check(ctx, &Bin { op, form }, &[*a, *b], m, sound)?;
                    }
                }
            }
            for m in modes {
                for a in xs {
                    for k in xs {
                        check(ctx, &Mixed { op, form, swap: false, k: *k }, &[*a], &[*m], sound)?;
                        if op < 3 && form < 4 {
                            check(ctx, &Mixed { op, form, swap: true, k: *k }, &[*a], &[*m], sound)?;
                        }
                    }
                }
            }
        }
    }
    for i in 0..7 {
        for m in modes {
            for a in xs {
                check(ctx, &Un(i), &[*a], &[*m], sound)?;
            }
        }
    }
    Ok(())
}

/// random operation histories on linear combinations against a dense interpreter
fn lc_programs<F: Field>(ctx: &mut Ctx, runs: usize, edge: &[F]) -> R<()> {
    for run in 0..runs {
        let cs = Rec::<F>::new();
        let nvar = 2 + run % 7;
        let mut st: Vec<(CNum<Rec<F>>, Vec<F>, Option<F>)> = vec![];
        let mut vals = vec![F::one()];
        let novalue = run % 5 == 4;
        for i in 0..nvar {
            let v = pick(ctx, edge);
            let n = if (run >> 3) + i & 1 == 0 {
                CNum::alloc(&cs, if novalue { None } else { Some(Num(v)) }.as_ref())
            } else {
                let ix = cs.alloc_input(if novalue { None } else { Some(Num(v)) });
                CNum::from_var(&cs, if novalue { None } else { Some(Num(v)) }, ix)
            };
            vals.push(v);
            let mut d = vec![F::zero(); nvar + 1];
            d[i + 1] = F::one();
            st.push((n, d, Some(v)));
        }
        // wires are appended in allocation order: wire i+1 is variable i
        let k0 = pick(ctx, edge);
        let mut d = vec![F::zero(); nvar + 1];
        d[0] = k0;
        st.push((CNum::from_const(&cs, &Num(k0)), d, Some(k0)));
        let mut trace = vec![];
        for _ in 0..(4 + run % 24) {
            let i = ctx.rng.gen::<usize>() % st.len();
            let j = ctx.rng.gen::<usize>() % st.len();
            let op = ctx.rng.gen::<usize>() % 9;
            let k = pick(ctx, edge);
            let small = int::<F>(ctx.rng.gen::<u8>() as i128 % 3 - 1).0;
            let kk = if ctx.rng.gen() { k } else { small };
            trace.push(format!("{}:{}({},{},{:?})", st.len(), ["+", "-", "neg", "*k", "/k", "+k", "-k", "k-", "+="][op], i, j, kk));
            let (a, da, va) = st[i].clone();
            let (b, db, vb) = st[j].clone();
            let comb = |f: &dyn Fn(V<F>, V<F>) -> V<F>| -> Vec<F> { da.iter().zip(db.iter()).map(|(x, y)| f(V(*x), V(*y)).0).collect() };
            let kv = V(kk);
            let v2 = |f: &dyn Fn(V<F>, V<F>) -> V<F>| match (va, vb) {
                (Some(x), Some(y)) => Some(f(V(x), V(y)).0),
                _ => None,
            };
            let mut konst = vec![F::zero(); nvar + 1];
            konst[0] = kk;
            let r = attempt(|| match op {
                0 => Some((&a + &b, comb(&|x, y| x + y), v2(&|x, y| x + y))),
                1 => Some((&a - &b, comb(&|x, y| x - y), v2(&|x, y| x - y))),
                2 => Some((-&a, comb(&|x, _| -x), v2(&|x, _| -x))),
                3 => Some((&a * Num(kk), comb(&|x, _| x * kv), v2(&|x, _| x * kv))),
                4 => {
                    if kv == zero() {
                        None
                    } else {
                        Some((&a / Num(kk), comb(&|x, _| x / kv), v2(&|x, _| x / kv)))
                    }
                }
                5 => Some((&a + Num(kk), da.iter().zip(konst.iter()).map(|(x, y)| (V(*x) + V(*y)).0).collect(), v2(&|x, _| x + kv))),
                6 => Some((&a - Num(kk), da.iter().zip(konst.iter()).map(|(x, y)| (V(*x) - V(*y)).0).collect(), v2(&|x, _| x - kv))),
                7 => Some((Num(kk) - &a, konst.iter().zip(da.iter()).map(|(x, y)| (V(*x) - V(*y)).0).collect(), v2(&|x, _| kv - x))),
                _ => {
                    let mut t = a.clone();
                    t += &b;
                    t -= &a;
                    Some((t, db.clone(), vb))
                }
            });
            let inp = || format!("variables {:?} constant {:?} history {:?}", &vals[1..], k0, trace);
            let r = match r {
                Err(e) => return fail(format!("linear arithmetic panics: {}", e), inp()),
                Ok(None) => continue,
                Ok(Some(r)) => r,
            };
            let got = norm(&cs.lc(&r.0));
            let want: Vec<(usize, F)> = r.1.iter().cloned().enumerate().filter(|(_, c)| !c.is_zero()).collect();
            if got != want {
                return fail(format!("linear combination {:?}, expected {:?}", got, want), inp());
            }
            if !novalue {
                if r.0.get_value().map(|v| v.0) != r.2 {
                    return fail(format!("carried value {:?}, expected {:?}", r.0.get_value(), r.2), inp());
                }
            } else if let Some(v) = r.0.get_value() {
                // without a witness a value may be carried only by constants
                if want.iter().any(|(w, _)| *w != 0) || r.1[0] != v.0 {
                    return fail(format!("value {:?} carried without a witness", v), inp());
                }
            }
            if let Some(c) = r.0.as_const() {
                if want.iter().any(|(w, _)| *w != 0) || r.1[0] != c.0 {
                    return fail(format!("{:?} reported as the constant {:?}", want, c), inp());
                }
            }
            ctx.nontrivial += 1;
            ctx.ok(|| inp());
            if cs.cons.borrow().len() != 0 {
                return fail("linear arithmetic emits constraints that restrict its operands", inp());
            }
            let r2 = if novalue { (r.0, r.1, r.2) } else { r };
            st.push(r2);
        }
    }
    Ok(())
}

pub fn c01(ctx: &mut Ctx) -> R<()> {
    let f7: Vec<Fp<7>> = elems();
    all_ops(ctx, &f7, &ALL, Sound::Exhaustive)?;
    if ctx.thorough {
        let f13: Vec<Fp<13>> = elems();
        all_ops(ctx, &f13, &ALL, Sound::Exhaustive)?;
    }
    let e: Vec<fawkes_crypto::native::bn256::Fr> = edge(ctx);
    let n = ctx.n(10, 24);
    let xs: Vec<_> = (0..n).map(|_| pick(ctx, &e)).chain(vec![e[0], e[1], e[11]]).collect();
    all_ops(ctx, &xs, &VCL, Sound::Attack)?;
    let e2: Vec<fawkes_crypto::native::bls12_381::Fr> = edge(ctx);
    let (a, b) = (ctx.n(2000, 20000), ctx.n(300, 4000));
    lc_programs(ctx, a, &f7)?;
    lc_programs(ctx, b, &e)?;
    lc_programs(ctx, b, &e2)
}

// ---------------------------------------------------------------- C02
#[derive(Clone)]
pub struct Asrt<F> {
    pub k: u8,
    pub c: F,
}
const ASRT: [&str; 13] = [
    "assert_zero", "assert_nonzero", "assert_bit", "assert_const", "assert_eq", "is_zero", "is_eq", "bool.assert", "bool.assert_true", "bool.assert_false",
    "bool.assert_eq", "bool.is_eq", "bool.assert_const",
];
impl<F: Field> Gadget<F> for Asrt<F> {
    fn name(&self) -> String {
        format!("{} (constant {:?})", ASRT[self.k as usize], self.c)
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let a = &x[0];
        match self.k {
            0 => a.assert_zero(),
            1 => a.assert_nonzero(),
            2 => a.assert_bit(),
            3 => a.assert_const(&Num(self.c)),
            4 => a.assert_eq(&x[1]),
            5 => return vec![a.is_zero().0],
            6 => return vec![a.is_eq(&x[1]).0],
            7 => a.into_bool().assert(),
            8 => a.into_bool().assert_true(),
            9 => a.into_bool().assert_false(),
            10 => a.into_bool().assert_eq(&x[1].into_bool()),
            11 => return vec![a.into_bool().is_eq(&x[1].into_bool()).0],
            _ => a.into_bool().assert_const(&(self.c == F::one())),
        }
        vec![]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let isbit = |v: F| v.is_zero() || v == F::one();
        match self.k {
            0 => when(x[0].is_zero()),
            1 => when(!x[0].is_zero()),
            2 | 7 => when(isbit(x[0])),
            3 => when(x[0] == self.c),
            4 => when(x[0] == x[1]),
            5 => out(vec![bit(x[0].is_zero())]),
            6 => out(vec![bit(x[0] == x[1])]),
            8 => when(x[0] == F::one()),
            9 => when(x[0].is_zero()),
            10 | 11 if !isbit(x[0]) || !isbit(x[1]) => Spec::Any,
            10 => when(x[0] == x[1]),
            11 => out(vec![bit(x[0] == x[1])]),
            _ if !isbit(self.c) => Spec::Any,
            _ => when(x[0] == self.c),
        }
    }
}
fn asrts<F: Field>(ctx: &mut Ctx, xs: &[F], modes: &[Mode], sound: Sound) -> R<()> {
    for k in 0..13u8 {
        let two = [4, 6, 10, 11].contains(&k);
        let withc = [3, 12].contains(&k);
        for m in modes {
            for a in xs {
                if two {
                    for m2 in modes {
                        for b in xs {
                            check(ctx, &Asrt { k, c: F::zero() }, &[*a, *b], &[*m, *m2], sound)?;
                        }
                    }
                } else if withc {
                    for c in xs {
                        check(ctx, &Asrt { k, c: *c }, &[*a], &[*m], sound)?;
                    }
                } else {
                    check(ctx, &Asrt { k, c: F::zero() }, &[*a], &[*m], sound)?;
                }
            }
        }
    }
    Ok(())
}
/// a test or an assertion applied to a computed signal whose terms cancel
struct Cancel(u8);
impl<F: Field> Gadget<F> for Cancel {
    fn name(&self) -> String {
        format!("{} of a cancelled difference", ["is_zero", "assert_zero", "assert_bit", "is_eq"][self.0 as usize])
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let d = &x[0] - &x[1] - &x[0] + &x[1];
        match self.0 {
            0 => vec![d.is_zero().0],
            1 => {
                d.assert_zero();
                vec![]
            }
            2 => {
                d.assert_bit();
                vec![]
            }
            _ => vec![(&x[0] + &x[1]).is_eq(&(&x[1] + &x[0])).0],
        }
    }
    fn spec(&self, _: &[F]) -> Spec<F> {
        out(if self.0 == 0 || self.0 == 3 { vec![F::one()] } else { vec![] })
    }
}
pub fn c02(ctx: &mut Ctx) -> R<()> {
    asrts(ctx, &elems::<Fp<7>>(), &ALL, Sound::Exhaustive)?;
    asrts(ctx, &elems::<Fp<13>>(), &ALL, Sound::Exhaustive)?;
    for i in 0..4 {
        for a in elems::<Fp<7>>() {
            for b in elems::<Fp<7>>() {
                for m in ALL.iter() {
                    check(ctx, &Cancel(i), &[a, b], &[*m, Mode::Var], Sound::Exhaustive)?;
                }
            }
        }
    }
    let e: Vec<fawkes_crypto::native::bn256::Fr> = edge(ctx);
    let n = ctx.n(10, 40);
    let mut xs: Vec<_> = e.clone();
    xs.truncate(n);
    xs.extend(vec![e[11], e[12]]);
    asrts(ctx, &xs, &VCL, Sound::Attack)?;
    for x in e {
        for k in [0u8, 1, 2, 5].iter() {
            check(ctx, &Asrt { k: *k, c: x }, &[x], &[Mode::Var], Sound::Attack)?;
            check(ctx, &Asrt { k: *k, c: x }, &[x], &[Mode::Const], Sound::Attack)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
#[derive(Clone)]
pub struct Sel(pub u8);
impl<F: Field> Gadget<F> for Sel {
    fn name(&self) -> String {
        ["a.switch(bit, b)", "bit.if_else(a, b)", "switch of booleans", "switch, longer first branch", "switch, longer second branch"][self.0 as usize].into()
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let s: CBool<CS> = x[0].into_bool();
        vec![match self.0 {
            0 => x[1].switch(&s, &x[2]),
            1 => s.if_else(&x[1], &x[2]),
            2 => x[1].into_bool().switch(&s, &x[2].into_bool()).0,
            3 => (&x[1] + &x[3] + Num(F::one())).switch(&s, &x[2]),
            _ => x[1].switch(&s, &(&x[2] - &x[3] + Num(F::one()))),
        }]
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let isbit = |v: F| v.is_zero() || v == F::one();
        if !isbit(x[0]) || self.0 == 2 && !(isbit(x[1]) && isbit(x[2])) {
            return Spec::Any;
        }
        let t = if self.0 == 3 { (V(x[1]) + V(x[3]) + one()).0 } else { x[1] };
        let f = if self.0 == 4 { (V(x[2]) - V(x[3]) + one()).0 } else { x[2] };
        out(vec![if x[0] == F::one() { t } else { f }])
    }
}
#[derive(Clone)]
pub struct Mux<F>(pub Vec<Vec<F>>);
impl<F: Field> Gadget<F> for Mux<F> {
    fn name(&self) -> String {
        format!("3-bit lookup in {:?}", self.0)
    }
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, _: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>> {
        let s: Vec<CBool<CS>> = x.iter().map(|b| b.into_bool()).collect();
        let t: Vec<Vec<Num<F>>> = self.0.iter().map(|c| c.iter().map(|v| Num(*v)).collect()).collect();
        c_mux3(&s, &t)
    }
    fn spec(&self, x: &[F]) -> Spec<F> {
        let i: usize = (0..3).map(|i| if x[i] == F::one() { 1 << i } else { 0 }).sum();
        out(self.0.iter().map(|c| c[i]).collect())
    }
}
fn muxes<F: Field>(ctx: &mut Ctx, tabs: &[Vec<Vec<F>>], modes: &[Mode], sound: Sound) -> R<()> {
    for t in tabs {
        for i in 0..8 {
            let x: Vec<F> = (0..3).map(|k| bit(i >> k & 1 == 1)).collect();
            for a in modes {
                for b in modes {
                    for c in modes {
                        check(ctx, &Mux(t.clone()), &x, &[*a, *b, *c], sound)?;
                    }
                }
            }
        }
    }
    Ok(())
}
fn sels<F: Field>(ctx: &mut Ctx, xs: &[F], modes: &[Mode], sound: Sound) -> R<()> {
    for k in 0..5u8 {
        for b in 0..2 {
            for t in xs {
                for f in xs {
                    for m in modes {
                        for m1 in modes {
                            for m2 in modes {
                                let e = (V(*t) + V(*f) + one()).0;
                                check(ctx, &Sel(k), &[bit(b == 1), *t, *f, e], &[*m, *m1, *m2, Mode::Var], sound)?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn c03(ctx: &mut Ctx) -> R<()> {
    sels(ctx, &elems::<Fp<7>>(), &ALL, Sound::Exhaustive)?;
    let e: Vec<fawkes_crypto::native::bn256::Fr> = edge(ctx);
    let xs: Vec<_> = (0..ctx.n(4, 12)).map(|_| pick(ctx, &e)).chain(vec![e[0], e[1]]).collect();
    sels(ctx, &xs, &VCL, Sound::Attack)?;
    let mut tabs = vec![];
    for w in 0..4 {
        for _ in 0..ctx.n(6, 60) {
            tabs.push((0..w).map(|_| (0..8).map(|_| ctx.rng.gen::<Fp<13>>()).collect()).collect::<Vec<Vec<Fp<13>>>>());
        }
    }
    // one-hot tables: together they determine a function linear in the table
    for i in 0..8 {
        tabs.push(vec![(0..8).map(|j| bit(i == j)).collect()]);
    }
    muxes(ctx, &tabs, &ALL, Sound::Exhaustive)?;
    let mut tabs = vec![];
    for w in 1..4 {
        tabs.push((0..w).map(|_| (0..8).map(|_| pick(ctx, &e)).collect()).collect());
    }
    for i in 0..8 {
        tabs.push(vec![(0..8).map(|j| bit(i == j)).collect()]);
    }
    muxes(ctx, &tabs, &VCL, Sound::Attack)
}
