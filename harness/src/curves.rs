#![allow(unused_imports)]
//! Curve parameter sets: the two real ones and tiny complete Edwards curves of order 8r.
use crate::oracle::*;
use crate::small::Fp;
use fawkes_crypto::core::field::Field;
use fawkes_crypto::native::ecc::{EdwardsPoint, JubJubParams};
use fawkes_crypto::native::num::Num;
use num::bigint::BigUint;

#[derive(Clone)]
pub struct Tiny<const P: u64, const Q: u64> {
    pub g: EdwardsPoint<Fp<P>>,
    pub d: Fp<P>,
    pub a: Fp<P>,
    pub b: Fp<P>,
    pub u: Fp<P>,
}
impl<const P: u64, const Q: u64> Tiny<P, Q> {
    pub fn new(d: u64, u: u64, pick: usize) -> Self {
        let d = Fp::<P>(d);
        let e = |p: (Fp<P>, Fp<P>)| EdwardsPoint { x: Num(p.0), y: Num(p.1) };
        let mut t = Tiny {
            g: e(ed_zero()),
            d,
            a: (int::<Fp<P>>(2) * (one() - V(d)) / (one() + V(d))).0,
            b: (-int::<Fp<P>>(4) / (one() + V(d))).0,
            u: Fp(u),
        };
        let all = t.points();
        assert!(all.len() as u64 == 8 * Q && !is_square(d) && !is_square(t.u) && is_square((-one::<Fp<P>>()).0));
        let sub = t.subgroup();
        assert!(sub.len() as u64 == Q);
        let nz: Vec<_> = sub.into_iter().filter(|p| *p != ed_zero()).collect();
        t.g = e(nz[pick % nz.len()]);
        t
    }
    pub fn points(&self) -> Vec<Pt<Fp<P>>> {
        let mut r = vec![];
        for x in 0..P {
            for y in 0..P {
                if ed_on((Fp(x), Fp(y)), self.d) {
                    r.push((Fp(x), Fp(y)));
                }
            }
        }
        r
    }
    pub fn subgroup(&self) -> Vec<Pt<Fp<P>>> {
        self.points().into_iter().filter(|p| ed_mul(*p, &BigUint::from(Q), self.d) == ed_zero()).collect()
    }
}
impl<const P: u64, const Q: u64> JubJubParams for Tiny<P, Q> {
    type Fr = Fp<P>;
    type Fs = Fp<Q>;
    fn edwards_g(&self) -> &EdwardsPoint<Fp<P>> {
        &self.g
    }
    fn edwards_d(&self) -> Num<Fp<P>> {
        Num(self.d)
    }
    fn montgomery_a(&self) -> Num<Fp<P>> {
        Num(self.a)
    }
    fn montgomery_b(&self) -> Num<Fp<P>> {
        Num(self.b)
    }
    fn montgomery_u(&self) -> Num<Fp<P>> {
        Num(self.u)
    }
}
pub fn order<J: JubJubParams>() -> BigUint {
    modulus::<J::Fs>()
}
pub fn in_sub<J: JubJubParams>(p: Pt<J::Fr>, j: &J) -> bool {
    ed_on(p, j.edwards_d().0) && ed_mul(p, &order::<J>(), j.edwards_d().0) == ed_zero()
}
/// oracle: the subgroup point with the given x
pub fn decompress<J: JubJubParams>(x: J::Fr, j: &J) -> Option<Pt<J::Fr>> {
    let (vx, d) = (V(x), V(j.edwards_d().0));
    let y = sqrt(((one() + vx * vx) / (one() - d * vx * vx)).0)?;
    let a = (x, y);
    let b = (x, (-V(y)).0);
    if in_sub(a, j) {
        Some(a)
    } else if in_sub(b, j) {
        Some(b)
    } else {
        None
    }
}
pub fn ept<F: Field>(p: Pt<F>) -> EdwardsPoint<F> {
    EdwardsPoint { x: Num(p.0), y: Num(p.1) }
}
/// oracle: simplified SWU candidate, made even, times 8
pub fn swu<J: JubJubParams>(t: J::Fr, j: &J) -> Option<Pt<J::Fr>> {
    let (a, b, u, d) = (V(j.montgomery_a().0), V(j.montgomery_b().0), V(j.montgomery_u().0), j.edwards_d().0);
    let t = V(t) + one();
    if t == zero() {
        return None;
    }
    let s = u * t * t;
    let g = |x: V<J::Fr>| (x * x * x + a * x * x + x) / b;
    let x2 = -(one() + s) / (a * s);
    let x = if is_square(g(x2).0) { x2 } else { s * x2 };
    let y = sqrt(g(x).0).expect("oracle: SWU");
    let y = if is_odd(y) { -V(y) } else { V(y) };
    let ed = if x == zero() { ((zero::<J::Fr>()).0, (-one::<J::Fr>()).0) } else { ((x / y).0, ((x - one()) / (x + one())).0) };
    Some(ed_double_n(ed, 3, d))
}
/// points of every small order on a real curve (1, 2, 4, 8), then generator multiples
pub fn low_order<J: JubJubParams>(j: &J) -> Vec<Pt<J::Fr>> {
    let d = V(j.edwards_d().0);
    let mut r = vec![ed_zero(), (zero::<J::Fr>().0, (-one::<J::Fr>()).0)];
    // order 8r points times r give order dividing 8
    let mut y = int::<J::Fr>(2);
    while r.len() < 8 {
        y = y + one();
        if let Some(x) = sqrt(((y * y - one()) / (one() + d * y * y)).0) {
            let p = ed_mul((x, y.0), &order::<J>(), d.0);
            for k in 0..8u32 {
                let q = ed_mul(p, &BigUint::from(k), d.0);
                if !r.contains(&q) {
                    r.push(q);
                }
            }
        }
    }
    r
}
