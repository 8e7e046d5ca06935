#![allow(unused_imports)]
//! Gadget checks: the code under test is run, the R1CS it emits is recorded, and
//! completeness, soundness (over all assignments) and shape are compared with a specification.
use crate::oracle::*;
use crate::rcs::*;
use crate::solve::Solver;
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::ConstraintSystem;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::core::signal::Signal;
use fawkes_crypto::native::num::Num;
use linked_list::LinkedList;
use rand::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R<T> = Result<T, Fail>;
#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    pub input: String,
}
pub fn fail<T>(what: impl Into<String>, input: impl Into<String>) -> R<T> {
    Err(Fail { what: what.into(), input: input.into() })
}
pub struct Ctx {
    pub rng: rand::XorShiftRng,
    pub thorough: bool,
    pub evals: u64,
    pub nontrivial: u64,
    pub truncated: u64,
    pub exhausted: u64,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub lits: Vec<num::bigint::BigUint>,
    pub only_shape: bool,
}
impl Ctx {
    pub fn ok(&mut self, sample: impl FnOnce() -> String) {
        self.evals += 1;
        if self.samples.len() < 12 && (self.evals % 97 == 1) {
            let s = sample();
            self.samples.push(s);
        }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}
/// runs code that may refuse its input by panicking
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
    })
}

pub enum Spec<F> {
    /// exactly these output tuples are allowed (empty: the input must be rejected)
    Set(Vec<Vec<F>>),
    /// outside the precondition
    Any,
}
pub fn out<F>(v: Vec<F>) -> Spec<F> {
    Spec::Set(vec![v])
}
pub fn reject<F>() -> Spec<F> {
    Spec::Set(vec![])
}
pub fn when<F>(b: bool) -> Spec<F> {
    if b {
        out(vec![])
    } else {
        reject()
    }
}
pub fn bit<F: Field>(b: bool) -> F {
    if b {
        F::one()
    } else {
        F::zero()
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Mode {
    Var,
    Const,
    Lin,
    Sum,
    Alias,
}
pub const VCL: [Mode; 3] = [Mode::Var, Mode::Const, Mode::Lin];
pub const ALL: [Mode; 5] = [Mode::Var, Mode::Const, Mode::Lin, Mode::Sum, Mode::Alias];

pub trait Gadget<F: Field> {
    fn name(&self) -> String;
    fn build<'a, CS: ConstraintSystem<F = F>>(&self, cs: &'a CS, x: &[CNum<'a, CS>]) -> Vec<CNum<'a, CS>>;
    fn spec(&self, x: &[F]) -> Spec<F>;
}

#[derive(Copy, Clone, PartialEq)]
pub enum Sound {
    /// enumerate every satisfying assignment (tiny field)
    Exhaustive,
    /// perturb wires and re-solve (large field)
    Attack,
    No,
}

pub fn mk<'a, F: Field>(cs: &'a Rec<F>, x: &[F], modes: &[Mode], vals: bool, fixed: &mut Vec<(usize, F)>) -> Vec<CNum<'a, Rec<F>>> {
    let mut res: Vec<CNum<'a, Rec<F>>> = vec![];
    for i in 0..x.len() {
        let mut wire = |v: F| -> Index {
            fixed.push((cs.nwires(), v));
            cs.alloc(if vals { Some(Num(v)) } else { None })
        };
        let value = if vals { Some(Num(x[i])) } else { None };
        let mut lc = LinkedList::new();
        let m = modes[i % modes.len()];
        let m = if m == Mode::Alias && (i == 0 || x[i] != x[0]) { Mode::Var } else { m };
        match m {
            Mode::Var => lc.push_back((wire(x[i]), Num(F::one()))),
            Mode::Const => {
                let v = x[i];
                let mut l = LinkedList::new();
                l.push_back((Index::Input(0), Num(v)));
                res.push(CNum { value: Some(Num(v)), lc: l, cs });
                continue;
            }
            Mode::Lin => {
                // 2*w + 1
                let two = int::<F>(2);
                let w = wire(((V(x[i]) - one()) / two).0);
                lc.push_back((Index::Input(0), Num(F::one())));
                lc.push_back((w, Num(two.0)));
            }
            Mode::Sum => {
                // w1 - w2
                let w1 = wire((V(x[i]) + int(1 + i as i128 % 2)).0);
                let w2 = wire(int::<F>(1 + i as i128 % 2).0);
                lc.push_back((w1, Num(F::one())));
                lc.push_back((w2, Num((-one::<F>()).0)));
            }
            Mode::Alias => {
                res.push(res[0].clone());
                continue;
            }
        }
        res.push(CNum { value, lc, cs });
    }
    res
}

pub struct Shape<F: Field> {
    pub cons: Vec<Con<F>>,
    pub outs: Vec<Lc<F>>,
    pub log: Vec<(bool, usize)>,
    pub nwires: usize,
    pub fixed: Vec<(usize, F)>,
}
pub fn norm_con<F: Field>(c: &Con<F>) -> (Vec<(usize, F)>, Vec<(usize, F)>, Vec<(usize, F)>) {
    (norm(&c.0), norm(&c.1), norm(&c.2))
}
impl<F: Field> Shape<F> {
    pub fn same(&self, o: &Self) -> Result<(), String> {
        if self.log != o.log {
            return Err(format!("allocation order differs: {} vs {} variables", self.log.len(), o.log.len()));
        }
        if self.cons.len() != o.cons.len() {
            return Err(format!("{} vs {} constraints", self.cons.len(), o.cons.len()));
        }
        for (i, (a, b)) in self.cons.iter().zip(o.cons.iter()).enumerate() {
            if norm_con(a) != norm_con(b) {
                return Err(format!("constraint {} differs: {:?} vs {:?}", i, a, b));
            }
        }
        for (a, b) in self.outs.iter().zip(o.outs.iter()) {
            if norm(a) != norm(b) {
                return Err(format!("returned signal differs: {:?} vs {:?}", a, b));
            }
        }
        Ok(())
    }
}
pub fn blank<F: Field, G: Gadget<F>>(g: &G, x: &[F], modes: &[Mode]) -> Result<Shape<F>, String> {
    attempt(|| {
        let cs = Rec::new();
        let mut fixed = vec![];
        let inp = mk(&cs, x, modes, false, &mut fixed);
        let outs = g.build(&cs, &inp);
        let outs = outs.iter().map(|o| cs.lc(o)).collect();
        drop(inp);
        let s = Shape { cons: cs.cons.borrow().clone(), outs, log: cs.log.borrow().clone(), nwires: cs.nwires(), fixed };
        s
    })
}
pub struct Witnessed<F: Field> {
    pub shape: Shape<F>,
    pub wires: Vec<Option<F>>,
    pub outv: Vec<Option<F>>,
    pub consts: Vec<Option<F>>,
}
pub fn witnessed<F: Field, G: Gadget<F>>(g: &G, x: &[F], modes: &[Mode]) -> Result<Witnessed<F>, String> {
    attempt(|| {
        let cs = Rec::new();
        let mut fixed = vec![];
        let inp = mk(&cs, x, modes, true, &mut fixed);
        let outs = g.build(&cs, &inp);
        let outv = outs.iter().map(|o| o.get_value().map(|v| v.0)).collect();
        let consts = outs.iter().map(|o| o.as_const().map(|v| v.0)).collect();
        let outs = outs.iter().map(|o| cs.lc(o)).collect();
        drop(inp);
        let shape = Shape { cons: cs.cons.borrow().clone(), outs, log: cs.log.borrow().clone(), nwires: cs.nwires(), fixed };
        Witnessed { shape, wires: cs.values(), outv, consts }
    })
}

pub fn check<F: Field, G: Gadget<F>>(ctx: &mut Ctx, g: &G, x: &[F], modes: &[Mode], sound: Sound) -> R<()> {
    let desc = || format!("{} inputs={:?} kinds={:?}", g.name(), x, (0..x.len()).map(|i| modes[i % modes.len()]).collect::<Vec<_>>());
    if ctx.only_shape {
        return check_shape(ctx, g, x, modes);
    }
    let allowed = match g.spec(x) {
        Spec::Any => return Ok(()),
        Spec::Set(s) => s,
    };
    ctx.nontrivial += 1;
    let wit = witnessed(g, x, modes);
    let b = blank(g, x, modes);
    // shape
    if let (Ok(w), Ok(b)) = (&wit, &b) {
        if let Err(e) = w.shape.same(b) {
            return fail(format!("circuit shape depends on the witness: {}", e), desc());
        }
    }
    // completeness
    let mut honest = None;
    match wit {
        Ok(w) => {
            let vals: Option<Vec<F>> = w.wires.iter().cloned().collect();
            let vals = match vals {
                Some(v) => v,
                None => {
                    return fail("a variable was left without a value although all inputs have values", desc());
                }
            };
            let unsat = w.shape.cons.iter().position(|c| !sat(c, &vals));
            let lcv: Vec<F> = w.shape.outs.iter().map(|o| eval(o, &vals)).collect();
            if allowed.is_empty() {
                if unsat.is_none() {
                    return fail("accepts an input that must be rejected", desc());
                }
            } else {
                if let Some(i) = unsat {
                    return fail(format!("rejects a valid input (constraint {} unsatisfied by the computed witness)", i), desc());
                }
                if !allowed.contains(&lcv) {
                    return fail(format!("wrong result {:?}, expected {:?}", lcv, allowed), desc());
                }
                for (v, l) in w.outv.iter().zip(lcv.iter()) {
                    if *v != Some(*l) {
                        return fail(format!("carried value {:?} is not the value {:?} of the signal", v, l), desc());
                    }
                }
                for (v, l) in w.consts.iter().zip(lcv.iter()) {
                    if v.is_some() && *v != Some(*l) {
                        return fail(format!("signal of value {:?} reported as the constant {:?}", l, v), desc());
                    }
                }
            }
            honest = Some(vals);
        }
        Err(e) => {
            if !allowed.is_empty() {
                return fail(format!("panics on a valid input: {}", e), desc());
            }
        }
    }
    // soundness
    if sound != Sound::No {
        match b {
            Err(e) => {
                if !allowed.is_empty() {
                    return fail(format!("synthesis without a witness panics: {}", e), desc());
                }
            }
            Ok(b) => {
                if let Some(e) = break_soundness(ctx, &b, &allowed, honest.as_deref(), sound) {
                    return fail(e, desc());
                }
            }
        }
    }
    ctx.ok(desc);
    Ok(())
}
/// C20: the recorded circuit with these values against the one without values
pub fn check_shape<F: Field, G: Gadget<F>>(ctx: &mut Ctx, g: &G, x: &[F], modes: &[Mode]) -> R<()> {
    let desc = || format!("{} inputs={:?} kinds={:?}", g.name(), x, (0..x.len()).map(|i| modes[i % modes.len()]).collect::<Vec<_>>());
    let b = blank(g, x, modes);
    let wit = witnessed(g, x, modes);
    match (&wit, &b) {
        (Ok(w), Ok(b)) => {
            if let Err(e) = w.shape.same(b) {
                return fail(format!("circuit shape depends on the witness: {}", e), desc());
            }
            ctx.nontrivial += 1;
        }
        (Ok(_), Err(e)) => {
            if let Spec::Set(s) = g.spec(x) {
                if !s.is_empty() {
                    return fail(format!("synthesis without a witness fails: {}", e), desc());
                }
            }
        }
        _ => {}
    }
    ctx.ok(desc);
    Ok(())
}
pub fn short<F: std::fmt::Debug>(v: &[F]) -> String {
    let s = format!("{:?}", v);
    if s.len() > 4000 {
        format!("{}... ({} wires)", &s[..4000], v.len())
    } else {
        s
    }
}

pub fn elems<F: Field>() -> Vec<F> {
    let p = modulus::<F>();
    let p: u64 = p.to_string().parse().expect("tiny field");
    (0..p).map(|i| int::<F>(i as i128).0).collect()
}

pub fn break_soundness<F: Field>(ctx: &mut Ctx, b: &Shape<F>, allowed: &[Vec<F>], honest: Option<&[F]>, sound: Sound) -> Option<String> {
    let mut hit: Option<(Vec<F>, Vec<F>)> = None;
    match sound {
        Sound::Exhaustive => {
            let all = elems::<F>();
            let free = |_w: usize| all.clone();
            let mut s = Solver::new(&b.cons, b.nwires, &b.fixed, &b.outs, &free, 400_000);
            let mut seen: Vec<Vec<F>> = vec![];
            let done = s.run(&mut |v| {
                let o: Vec<F> = b.outs.iter().map(|l| eval(l, v)).collect();
                if !allowed.contains(&o) {
                    hit = Some((o, v.to_vec()));
                    return false;
                }
                if !seen.contains(&o) {
                    seen.push(o);
                }
                true
            });
            if hit.is_none() {
                if done {
                    ctx.exhausted += 1;
                    let constant = b.outs.iter().all(|o| o.iter().all(|t| t.0 == 0));
                    if seen.len() != allowed.len() && !(constant && seen.len() == 1) {
                        let miss: Vec<_> = allowed.iter().filter(|a| !seen.contains(a)).collect();
                        return Some(format!("no satisfying assignment gives the valid result {:?}", miss));
                    }
                } else {
                    ctx.truncated += 1;
                }
            }
        }
        Sound::Attack => {
            let honest: Vec<F> = match honest {
                Some(h) => h.to_vec(),
                None => vec![F::zero(); b.nwires],
            };
            let isfixed: Vec<bool> = {
                let mut f = vec![false; b.nwires];
                f[0] = true;
                for (w, _) in &b.fixed {
                    f[*w] = true;
                }
                f
            };
            let cand: Vec<usize> = (0..b.nwires).filter(|w| !isfixed[*w]).collect();
            let max = match (ctx.thorough, b.nwires > 120) {
                (true, false) => 400,
                (true, true) => 40,
                (false, false) => 60,
                (false, true) => 6,
            };
            let picks: Vec<usize> = if cand.len() <= max {
                cand
            } else {
                (0..max).map(|i| if i < max / 2 { cand[i * cand.len() / (max / 2)] } else { cand[ctx.rng.gen::<usize>() % cand.len()] }).collect()
            };
            let rnd: F = ctx.rng.gen();
            let mut runs: Vec<Vec<(usize, F)>> = vec![];
            if allowed.is_empty() {
                runs.push(vec![]);
            }
            for w in picks {
                let h = V(honest[w]);
                for v in vec![h + one(), one() - h, -h, zero(), V(rnd)] {
                    if v != h || allowed.is_empty() {
                        runs.push(vec![(w, v.0)]);
                    }
                }
            }
            for r in runs {
                let mut fixed = b.fixed.clone();
                fixed.extend(r);
                let free = |w: usize| vec![honest[w], F::zero(), F::one(), rnd];
                let mut s = Solver::new(&b.cons, b.nwires, &fixed, &b.outs, &free, 40);
                s.run(&mut |v| {
                    let o: Vec<F> = b.outs.iter().map(|l| eval(l, v)).collect();
                    if !allowed.contains(&o) {
                        hit = Some((o, v.to_vec()));
                        return false;
                    }
                    true
                });
                if hit.is_some() {
                    break;
                }
            }
        }
        Sound::No => {}
    }
    // never report an assignment that does not check
    if let Some((o, v)) = &hit {
        if b.cons.iter().all(|c| sat(c, v)) {
            return Some(format!("unsound: a satisfying assignment gives {:?}, allowed {:?}; assignment {}", o, allowed, short(v)));
        }
    }
    None
}

pub fn edge<F: Field>(ctx: &mut Ctx) -> Vec<F> {
    let mut v: Vec<F> = vec![0i128, 1, 2, 3, 4, 5, 7, 8, 16, 255, 256, -1, -2, -3, 1 << 32, 1 << 62, u64::MAX as i128, i64::MAX as i128, i64::MIN as i128, 1 << 64, (1 << 64) + 1]
        .into_iter()
        .map(|i| int::<F>(i).0)
        .collect();
    let half = (V(F::one()) / int(2)).0;
    v.push(half);
    v.push((V(half) - one()).0);
    for k in [31usize, 63, 64, 65, 127, 128, 191, 192, 250, 251, 252, 253].iter() {
        let mut x = one::<F>();
        for _ in 0..*k {
            x = x + x;
        }
        v.push(x.0);
        v.push((x - one()).0);
    }
    for l in &ctx.lits {
        v.push(of_big::<F>(l));
    }
    for _ in 0..4 {
        v.push(ctx.rng.gen());
    }
    v
}
pub fn pick<F: Field>(ctx: &mut Ctx, e: &[F]) -> F {
    if ctx.rng.gen::<u8>() % 4 == 0 {
        ctx.rng.gen()
    } else {
        e[ctx.rng.gen::<usize>() % e.len()]
    }
}

