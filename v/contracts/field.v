@area field
@types native::num|type|Num=#[derive(Clone,~Copy)]
%% raw
// TRUSTED: the element type of the field (pairing_ce / ff_ce); its operations are assumed to be those of a field
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct T { x: u64 }
pub type Fe = T;
pub uninterp spec fn f0() -> Num;
pub uninterp spec fn f1() -> Num;
pub uninterp spec fn fadd(a: Num, b: Num) -> Num;
pub uninterp spec fn fmul(a: Num, b: Num) -> Num;
pub uninterp spec fn fneg(a: Num) -> Num;
pub uninterp spec fn finv(a: Num) -> Num;
pub open spec fn fsub(a: Num, b: Num) -> Num { fadd(a, fneg(b)) }
pub open spec fn fdiv(a: Num, b: Num) -> Num { fmul(a, finv(b)) }
// TRUSTED: field axioms
pub broadcast axiom fn ax_addcomm(a: Num, b: Num) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast axiom fn ax_mulcomm(a: Num, b: Num) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub axiom fn ax_addassoc(a: Num, b: Num, c: Num) ensures fadd(fadd(a, b), c) == fadd(a, fadd(b, c));
pub axiom fn ax_mulassoc(a: Num, b: Num, c: Num) ensures fmul(fmul(a, b), c) == fmul(a, fmul(b, c));
pub axiom fn ax_dist(a: Num, b: Num, c: Num) ensures fmul(a, fadd(b, c)) == fadd(fmul(a, b), fmul(a, c));
pub broadcast axiom fn ax_add0(a: Num) ensures #[trigger] fadd(a, f0()) == a;
pub broadcast axiom fn ax_mul1(a: Num) ensures #[trigger] fmul(a, f1()) == a;
pub axiom fn ax_neg(a: Num) ensures fadd(a, fneg(a)) == f0();
pub broadcast axiom fn ax_inv(a: Num) ensures a != f0() ==> fmul(a, #[trigger] finv(a)) == f1();
pub broadcast axiom fn ax_01() ensures f0() != #[trigger] f1();
// derived (proved)
pub broadcast proof fn l_add0l(a: Num) ensures #[trigger] fadd(f0(), a) == a { broadcast use ax_addcomm, ax_add0; }
pub broadcast proof fn l_mul1l(a: Num) ensures #[trigger] fmul(f1(), a) == a { broadcast use ax_mulcomm, ax_mul1; }
pub proof fn l_cancel(a: Num, b: Num, c: Num) requires fadd(a, b) == fadd(a, c) ensures b == c
{ broadcast use ax_addcomm, ax_add0; ax_neg(a); ax_addassoc(fneg(a), a, b); ax_addassoc(fneg(a), a, c); }
pub broadcast proof fn l_mul0(a: Num) ensures #[trigger] fmul(a, f0()) == f0()
{ broadcast use ax_add0; ax_dist(a, f0(), f0()); l_cancel(fmul(a, f0()), fmul(a, f0()), f0()); }
pub broadcast proof fn l_mul0l(a: Num) ensures #[trigger] fmul(f0(), a) == f0() { broadcast use ax_mulcomm, l_mul0; }
pub broadcast proof fn l_subself(a: Num) ensures fadd(a, #[trigger] fneg(a)) == f0() { ax_neg(a); }
pub proof fn l_add4(a: Num, b: Num, c: Num, d: Num) ensures fadd(fadd(a, b), fadd(c, d)) == fadd(fadd(a, c), fadd(b, d))
{ ax_addassoc(a, b, fadd(c, d)); ax_addassoc(b, c, d); ax_addassoc(c, b, d); ax_addcomm(b, c); ax_addassoc(a, c, fadd(b, d)); }
pub proof fn l_negunique(a: Num, b: Num) requires fadd(a, b) == f0() ensures b == fneg(a)
{ ax_neg(a); l_cancel(a, b, fneg(a)); }
pub proof fn l_neg0() ensures fneg(f0()) == f0() { broadcast use ax_add0; l_negunique(f0(), f0()); }
pub broadcast proof fn l_negneg(a: Num) ensures #[trigger] fneg(fneg(a)) == a { broadcast use ax_addcomm; ax_neg(a); l_negunique(fneg(a), a); }
pub proof fn l_neg_add(a: Num, b: Num) ensures fneg(fadd(a, b)) == fadd(fneg(a), fneg(b))
{ broadcast use ax_add0; ax_neg(a); ax_neg(b); l_add4(a, b, fneg(a), fneg(b)); l_negunique(fadd(a, b), fadd(fneg(a), fneg(b))); }
pub proof fn l_neg_mul(a: Num, b: Num) ensures fmul(fneg(a), b) == fneg(fmul(a, b)), fmul(b, fneg(a)) == fneg(fmul(a, b))
{ broadcast use ax_mulcomm, l_mul0; ax_neg(a); ax_dist(b, a, fneg(a)); l_negunique(fmul(a, b), fmul(fneg(a), b)); }
pub proof fn l_sub_mul(a: Num, b: Num, c: Num) ensures fmul(fsub(a, b), c) == fsub(fmul(a, c), fmul(b, c))
{ broadcast use ax_mulcomm; ax_dist(c, a, fneg(b)); l_neg_mul(b, c); }
pub proof fn l_add_mul(a: Num, b: Num, c: Num) ensures fmul(fadd(a, b), c) == fadd(fmul(a, c), fmul(b, c))
{ broadcast use ax_mulcomm; ax_dist(c, a, b); }
pub broadcast proof fn l_sub0(a: Num) ensures #[trigger] fsub(a, f0()) == a { broadcast use ax_add0; l_neg0(); }
pub broadcast proof fn l_subeq(a: Num, b: Num) ensures (#[trigger] fsub(a, b) == f0()) == (a == b)
{ broadcast use ax_addcomm, ax_add0, l_add0l; ax_neg(b); ax_addassoc(a, fneg(b), b); }
pub broadcast proof fn l_addsub(a: Num, b: Num) ensures #[trigger] fadd(a, fsub(b, a)) == b
{ broadcast use ax_addcomm, ax_add0; ax_neg(a); ax_addassoc(b, fneg(a), a); }
pub broadcast proof fn l_subadd(a: Num, b: Num) ensures #[trigger] fadd(fsub(a, b), b) == a
{ broadcast use ax_addcomm, ax_add0; ax_neg(b); ax_addassoc(a, fneg(b), b); }
pub broadcast proof fn l_zeroprod(a: Num, b: Num) ensures (#[trigger] fmul(a, b) == f0()) == (a == f0() || b == f0())
{ broadcast use ax_mulcomm, l_mul0, l_mul0l, ax_mul1, l_mul1l, ax_inv;
  if fmul(a, b) == f0() && a != f0() { ax_mulassoc(finv(a), a, b); } }
pub broadcast proof fn l_divmul(a: Num, b: Num) ensures b != f0() ==> #[trigger] fmul(fdiv(a, b), b) == a
{ broadcast use ax_mulcomm, ax_mul1; ax_inv(b); ax_mulassoc(a, finv(b), b); }
pub proof fn l_divunique(q: Num, a: Num, b: Num) requires fmul(q, b) == a, b != f0() ensures q == fdiv(a, b)
{ broadcast use ax_mulcomm, ax_mul1; ax_inv(b); ax_mulassoc(q, b, finv(b)); }
pub broadcast proof fn l_divu(q: Num, b: Num) ensures b != f0() ==> fmul(#[trigger] fmul(q, b), #[trigger] finv(b)) == q { if b != f0() { l_divunique(q, fmul(q, b), b); } }
pub proof fn l_mulcancel(a: Num, b: Num, c: Num) requires fmul(a, c) == fmul(b, c), c != f0() ensures a == b
{ l_divunique(a, fmul(a, c), c); l_divunique(b, fmul(a, c), c); }
pub broadcast group fieldax { ax_add0, l_add0l, ax_mul1, l_mul1l, l_mul0, l_mul0l, l_subself, l_sub0, l_subeq, l_addsub, l_subadd, ax_mulcomm, ax_addcomm, l_zeroprod, ax_inv, l_divmul, l_negneg, l_sq1, ax_01, l_divu }
pub open spec fn isbit(a: Num) -> bool { a == f0() || a == f1() }
pub open spec fn fb(b: bool) -> Num { if b { f1() } else { f0() } }
/// set exactly when the prover is honest: every allocated variable has a value and the assignment is the carried one
pub uninterp spec fn honest() -> bool;
/// TRUSTED rendering of panic: the caller has to show that no honest run gets there
#[verifier::external_body]
pub fn reject() -> ! requires !honest() { unimplemented!() }
pub trait VOpt<X> : Sized { spec fn vo(&self) -> Option<X>; fn vas_ref(&self) -> (r: Option<&X>) ensures self.vo().is_some() == r.is_some(), r.is_some() ==> *r.unwrap() == self.vo().unwrap(); }
impl<X> VOpt<X> for Option<X> { open spec fn vo(&self) -> Option<X> { *self } fn vas_ref(&self) -> (r: Option<&X>) { match self { Some(x) => Some(x), None => None } } }
pub trait VCl<X> : Sized { spec fn vc(&self) -> Option<X>; fn vcloned(self) -> (r: Option<X>) ensures r == self.vc(); }
impl<'x> VCl<Num> for Option<&'x Num> { open spec fn vc(&self) -> Option<Num> { match self { Some(x) => Some(**x), None => None } } fn vcloned(self) -> (r: Option<Num>) { match self { Some(x) => Some(*x), None => None } } }
#[verifier::opaque]
pub open spec fn sq1(a: Num) -> Seq<Num> { seq![a] }
pub broadcast proof fn l_sq1(a: Num) ensures (#[trigger] sq1(a)).len() == 1, sq1(a)[0] == a, sq1(a) == seq![a] { reveal(sq1); }
/// TRUSTED rendering of unwrap: panicking on None is a rejection
pub trait VUnwrap<X> : Sized { spec fn vsome(&self) -> bool; spec fn vval(&self) -> X; fn vunwrap(self) -> (r: X) requires honest() ==> self.vsome() ensures self.vsome(), r == self.vval(); }
impl<X> VUnwrap<X> for Option<X> { open spec fn vsome(&self) -> bool { self.is_some() } open spec fn vval(&self) -> X { self.unwrap() } fn vunwrap(self) -> (r: X) { match self { Some(x) => x, None => reject() } } }
