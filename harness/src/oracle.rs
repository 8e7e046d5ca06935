//! Independent oracle arithmetic: raw field operations and textbook affine formulas.
use fawkes_crypto::core::field::Field as FField;
use ff::{Field, PrimeField, PrimeFieldRepr, SqrtField};
use num::bigint::BigUint;
use std::ops::*;

#[derive(Copy, Clone, PartialEq, Debug)]
pub struct V<F>(pub F);
impl<F: Field> Add for V<F> {
    type Output = V<F>;
    fn add(mut self, o: V<F>) -> V<F> {
        self.0.add_assign(&o.0);
        self
    }
}
impl<F: Field> Sub for V<F> {
    type Output = V<F>;
    fn sub(mut self, o: V<F>) -> V<F> {
        self.0.sub_assign(&o.0);
        self
    }
}
impl<F: Field> Mul for V<F> {
    type Output = V<F>;
    fn mul(mut self, o: V<F>) -> V<F> {
        self.0.mul_assign(&o.0);
        self
    }
}
impl<F: Field> Div for V<F> {
    type Output = V<F>;
    fn div(mut self, o: V<F>) -> V<F> {
        self.0.mul_assign(&o.0.inverse().expect("oracle: division by zero"));
        self
    }
}
impl<F: Field> Neg for V<F> {
    type Output = V<F>;
    fn neg(mut self) -> V<F> {
        self.0.negate();
        self
    }
}
pub fn zero<F: Field>() -> V<F> {
    V(F::zero())
}
pub fn one<F: Field>() -> V<F> {
    V(F::one())
}
pub fn int<F: FField>(n: i128) -> V<F> {
    let m = n.unsigned_abs();
    let mut r = zero::<F>();
    for i in (0..128).rev() {
        r = r + r;
        if m >> i & 1 == 1 {
            r = r + one();
        }
    }
    if n < 0 {
        -r
    } else {
        r
    }
}
pub fn big_of_repr<R: PrimeFieldRepr>(r: &R) -> BigUint {
    let mut x = BigUint::from(0u32);
    for l in r.as_ref().iter().rev() {
        x = (x << 64usize) + BigUint::from(*l);
    }
    x
}
pub fn big<F: FField>(x: F) -> BigUint {
    big_of_repr(&PrimeField::into_repr(&x))
}
pub fn modulus<F: FField>() -> BigUint {
    big_of_repr(&<F as PrimeField>::char())
}
/// the field element of an integer, by Horner's rule (no reduction of the integer)
pub fn of_big<F: FField>(x: &BigUint) -> F {
    let mut r = zero::<F>();
    let two56 = int::<F>(256);
    for b in x.to_bytes_be() {
        let mut s = one::<F>();
        let _ = &mut s;
        r = r * two56 + int(b as i128);
    }
    r.0
}
pub fn le_bits<F: FField>(x: F, n: usize) -> Vec<bool> {
    let b = big(x);
    bits_of_big(&b, n)
}
pub fn bits_of_big(b: &BigUint, n: usize) -> Vec<bool> {
    let bytes = b.to_bytes_le();
    (0..n).map(|i| bytes.get(i / 8).map(|v| v >> (i % 8) & 1 == 1).unwrap_or(false)).collect()
}
pub fn is_square<F: FField>(x: F) -> bool {
    x.is_zero() || {
        // Euler criterion
        let mut e = <F as PrimeField>::char();
        e.sub_noborrow(&<F as PrimeField>::Repr::from(1));
        e.div2();
        x.pow(e) == F::one()
    }
}
pub fn is_odd<F: FField>(x: F) -> bool {
    le_bits(x, 1)[0]
}
pub fn sqrt<F: FField>(x: F) -> Option<F> {
    SqrtField::sqrt(&x)
}

pub type Pt<F> = (F, F);
pub fn ed_on<F: FField>(p: Pt<F>, d: F) -> bool {
    let (x, y, d) = (V(p.0), V(p.1), V(d));
    y * y - x * x == one() + d * x * x * y * y
}
pub fn ed_add<F: FField>(p: Pt<F>, q: Pt<F>, d: F) -> Pt<F> {
    let (x1, y1, x2, y2, d) = (V(p.0), V(p.1), V(q.0), V(q.1), V(d));
    let k = d * x1 * x2 * y1 * y2;
    (
        ((x1 * y2 + x2 * y1) / (one() + k)).0,
        ((y1 * y2 + x1 * x2) / (one() - k)).0,
    )
}
pub fn ed_zero<F: FField>() -> Pt<F> {
    (F::zero(), F::one())
}
pub fn ed_neg<F: FField>(p: Pt<F>) -> Pt<F> {
    ((-V(p.0)).0, p.1)
}
pub fn ed_mul<F: FField>(p: Pt<F>, n: &BigUint, d: F) -> Pt<F> {
    let nb = n.bits();
    let mut r = ed_zero();
    for b in bits_of_big(n, nb).into_iter().rev() {
        r = ed_add(r, r, d);
        if b {
            r = ed_add(r, p, d);
        }
    }
    r
}
/// Edwards -> Montgomery for points where it is defined (None: the identity)
pub fn to_mont<F: FField>(p: Pt<F>) -> Option<Pt<F>> {
    let (x, y) = (V(p.0), V(p.1));
    if p == ed_zero() {
        None
    } else if x == zero() {
        Some((F::zero(), F::zero()))
    } else {
        let u = (one() + y) / (one() - y);
        Some((u.0, (u / x).0))
    }
}
pub fn ed_double_n<F: FField>(p: Pt<F>, n: usize, d: F) -> Pt<F> {
    (0..n).fold(p, |p, _| ed_add(p, p, d))
}
