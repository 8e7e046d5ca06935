@area native_num
@include field
%% raw
// TRUSTED: contracts of the field implementation (dependency)
impl T {
 #[verifier::external_body] pub fn zero() -> (r: T) ensures Num(r) == f0() { unimplemented!() }
 #[verifier::external_body] pub fn one() -> (r: T) ensures Num(r) == f1() { unimplemented!() }
 #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (Num(*self) == f0()) { unimplemented!() }
 #[verifier::external_body] pub fn add_assign(&mut self, o: &T) ensures Num(*final(self)) == fadd(Num(*old(self)), Num(*o)) { unimplemented!() }
 #[verifier::external_body] pub fn sub_assign(&mut self, o: &T) ensures Num(*final(self)) == fsub(Num(*old(self)), Num(*o)) { unimplemented!() }
 #[verifier::external_body] pub fn mul_assign(&mut self, o: &T) ensures Num(*final(self)) == fmul(Num(*old(self)), Num(*o)) { unimplemented!() }
 #[verifier::external_body] pub fn negate(&mut self) ensures Num(*final(self)) == fneg(Num(*old(self))) { unimplemented!() }
 #[verifier::external_body] pub fn double(&mut self) ensures Num(*final(self)) == fadd(Num(*old(self)), Num(*old(self))) { unimplemented!() }
 #[verifier::external_body] pub fn square(&mut self) ensures Num(*final(self)) == fmul(Num(*old(self)), Num(*old(self))) { unimplemented!() }
 #[verifier::external_body] pub fn inverse(&self) -> (r: Option<T>) ensures r.is_some() == (Num(*self) != f0()), r.is_some() ==> Num(r.unwrap()) == finv(Num(*self)) { unimplemented!() }
 #[verifier::external_body] pub fn sqrt(&self) -> (r: Option<T>) ensures r.is_some() ==> fmul(Num(r.unwrap()), Num(r.unwrap())) == Num(*self), r.is_none() ==> forall|y: Num| fmul(y, y) != Num(*self) { unimplemented!() }
}
impl PartialEqSpecImpl for T { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &T) -> bool { self == o } }
impl PartialEq for T { #[verifier::external_body] fn eq(&self, o: &T) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Num { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Num) -> bool { self == o } }
## native::num|PartialEq|Num|eq
## native::num||Num|zero
ens: r == f0()
## native::num||Num|one
ens: r == f1()
## native::num||Num|minusone
ens: r == fneg(f1())
## native::num||Num|inverse
req: honest() ==> *self != f0()
ens: *self != f0(), r == finv(*self)
## native::num||Num|is_zero
ens: r == (*self == f0())
## native::num||Num|double
ens: r == fadd(self, self)
## native::num||Num|square
ens: r == fmul(self, self)
## native::num||Num|capacity
ens: true
## native::num||Num|new
ens: r == Num(f)
## native::num||Num|into_inner
ens: Num(r) == *self
## native::num||Num|sqrt
ens: r.is_some() ==> fmul(r.unwrap(), r.unwrap()) == *self, r.is_none() ==> forall|y: Num| fmul(y, y) != *self
## native::num||Num|into_bool
req: honest() ==> isbit(self)
ens: isbit(self), self == fb(r)
## native::num|Neg|Num|neg
ens: r == fneg(self)
## native::num|Neg|&Num|neg
ens: r == fneg(*self)
## native::num|From<bool>|Num|from
ens: r == fb(b)
