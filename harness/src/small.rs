//! Tiny prime fields (exhaustively enumerable instances of the generic code under test).
use ff::{Field, LegendreSymbol, PrimeField, PrimeFieldDecodingError, PrimeFieldRepr, SqrtField};
use rand::{Rand, Rng};
use std::fmt;
use std::io::{self, Read, Write};

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fp<const P: u64>(pub u64);

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct R1(pub [u64; 1]);

impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for R1 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0[0])
    }
}
impl Rand for R1 {
    fn rand<R: Rng>(rng: &mut R) -> Self {
        R1([rng.gen()])
    }
}
impl<const P: u64> Rand for Fp<P> {
    fn rand<R: Rng>(rng: &mut R) -> Self {
        Fp(rng.gen::<u64>() % P)
    }
}
impl AsRef<[u64]> for R1 {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl AsMut<[u64]> for R1 {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for R1 {
    fn from(x: u64) -> Self {
        R1([x])
    }
}
impl<const P: u64> From<Fp<P>> for R1 {
    fn from(x: Fp<P>) -> Self {
        R1([x.0])
    }
}
impl PrimeFieldRepr for R1 {
    fn sub_noborrow(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_sub(o.0[0])
    }
    fn add_nocarry(&mut self, o: &Self) {
        self.0[0] = self.0[0].wrapping_add(o.0[0])
    }
    fn num_bits(&self) -> u32 {
        64 - self.0[0].leading_zeros()
    }
    fn is_zero(&self) -> bool {
        self.0[0] == 0
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        self.0[0] & 1 == 0
    }
    fn div2(&mut self) {
        self.0[0] >>= 1
    }
    fn shr(&mut self, n: u32) {
        self.0[0] = if n < 64 { self.0[0] >> n } else { 0 }
    }
    fn mul2(&mut self) {
        self.0[0] <<= 1
    }
    fn shl(&mut self, n: u32) {
        self.0[0] = if n < 64 { self.0[0] << n } else { 0 }
    }
    // all tiny moduli are below 256: one byte, as wide as the field
    fn write_be<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&[self.0[0] as u8])
    }
    fn read_be<R: Read>(&mut self, mut r: R) -> io::Result<()> {
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        self.0[0] = b[0] as u64;
        Ok(())
    }
    fn write_le<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&[self.0[0] as u8])
    }
    fn read_le<R: Read>(&mut self, mut r: R) -> io::Result<()> {
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        self.0[0] = b[0] as u64;
        Ok(())
    }
}

impl<const P: u64> Field for Fp<P> {
    fn zero() -> Self {
        Fp(0)
    }
    fn one() -> Self {
        Fp(1)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn square(&mut self) {
        self.0 = self.0 * self.0 % P
    }
    fn double(&mut self) {
        self.0 = self.0 * 2 % P
    }
    fn negate(&mut self) {
        self.0 = (P - self.0) % P
    }
    fn add_assign(&mut self, o: &Self) {
        self.0 = (self.0 + o.0) % P
    }
    fn sub_assign(&mut self, o: &Self) {
        self.0 = (P + self.0 - o.0) % P
    }
    fn mul_assign(&mut self, o: &Self) {
        self.0 = self.0 * o.0 % P
    }
    fn inverse(&self) -> Option<Self> {
        if self.0 == 0 {
            None
        } else {
            Some(self.pow([P - 2]))
        }
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl<const P: u64> SqrtField for Fp<P> {
    fn legendre(&self) -> LegendreSymbol {
        if self.0 == 0 {
            LegendreSymbol::Zero
        } else if self.sqrt().is_some() {
            LegendreSymbol::QuadraticResidue
        } else {
            LegendreSymbol::QuadraticNonResidue
        }
    }
    // returns the larger root on odd squares so that both parities of "the" root occur
    fn sqrt(&self) -> Option<Self> {
        let mut r = (0..P).filter(|x| x * x % P == self.0);
        let a = r.next();
        let b = r.next();
        match (a, b) {
            (Some(a), Some(b)) => Some(Fp(if self.0 % 3 == 1 { b } else { a })),
            (Some(a), None) => Some(Fp(a)),
            _ => None,
        }
    }
}
const fn nbits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
impl<const P: u64> PrimeField for Fp<P> {
    type Repr = R1;
    fn from_repr(r: R1) -> Result<Self, PrimeFieldDecodingError> {
        if r.0[0] < P {
            Ok(Fp(r.0[0]))
        } else {
            Err(PrimeFieldDecodingError::NotInField(format!("{}", r)))
        }
    }
    fn from_raw_repr(r: R1) -> Result<Self, PrimeFieldDecodingError> {
        Self::from_repr(r)
    }
    fn into_repr(&self) -> R1 {
        R1([self.0])
    }
    fn into_raw_repr(&self) -> R1 {
        R1([self.0])
    }
    fn char() -> R1 {
        R1([P])
    }
    const NUM_BITS: u32 = nbits(P);
    const CAPACITY: u32 = nbits(P) - 1;
    fn multiplicative_generator() -> Self {
        let r = (1..P).find(|g| {
            let (mut x, mut n) = (*g, 1);
            while x != 1 {
                x = x * g % P;
                n += 1;
            }
            n == P - 1
        });
        Fp(r.unwrap())
    }
    const S: u32 = (P - 1).trailing_zeros();
    fn root_of_unity() -> Self {
        Self::multiplicative_generator().pow([(P - 1) >> Self::S])
    }
}
