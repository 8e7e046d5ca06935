@area groth
@include intview stdx2 coll
@sub bellman :: groth16 :: Proof < E > => BProof
@sub TruncatedVerifyingKey < E > => TruncatedVerifyingKey
@sub VerifyingKey < E > => VerifyingKey
@sub Proof < E > => Proof
@sub E :: G1Affine => G1A
@sub E :: G2Affine => G2A
@sub E :: Fqk => Fqk
@sub E :: Fr => T
@sub E :: final_exp => Eng :: final_exp
@sub E :: miller => Eng :: miller
@types helpers::groth16::prover|type|Proof helpers::groth16::verifier|type|TruncatedVerifyingKey
%% raw
// TRUSTED: the pairing engine (pairing_ce): two groups, scalar multiples, and a pairing into a cyclic group of prime order, whose elements stand here for their discrete logarithms
#[verifier::external_body]
pub struct G1 { x: u8 }
#[verifier::external_body]
pub struct G2 { x: u8 }
pub uninterp spec fn g1add(a: G1, b: G1) -> G1;
pub uninterp spec fn g1neg(a: G1) -> G1;
pub uninterp spec fn g1mul(n: int, a: G1) -> G1;
pub uninterp spec fn plog(a: G1, b: G2) -> int;
pub axiom fn ax_pneg(a: G1, b: G2) ensures (plog(g1neg(a), b) + plog(a, b)) % pmod() == 0;
#[verifier::external_body]
pub struct G1A { x: u8 }
#[verifier::external_body]
pub struct G1P { x: u8 }
#[verifier::external_body]
pub struct G2A { x: u8 }
#[verifier::external_body]
pub struct Fqk { x: u8 }
pub struct G1Prep { pub g: Ghost<G1> }
pub struct G2Prep { pub g: Ghost<G2> }
impl G1A { pub uninterp spec fn v(&self) -> G1;
  #[verifier::external_body] pub fn into_projective(&self) -> (r: G1P) ensures r.v() == self.v() { unimplemented!() }
  #[verifier::external_body] pub fn mul(&self, n: Repr) -> (r: G1P) ensures r.v() == g1mul(n.rint(), self.v()) { unimplemented!() }
  #[verifier::external_body] pub fn negate(&mut self) ensures final(self).v() == g1neg(old(self).v()) { unimplemented!() }
  #[verifier::external_body] pub fn prepare(&self) -> (r: G1Prep) ensures r.g@ == self.v() { unimplemented!() } }
impl Clone for G1A { #[verifier::external_body] fn clone(&self) -> (r: G1A) ensures r == *self { unimplemented!() } }
impl Clone for G2A { #[verifier::external_body] fn clone(&self) -> (r: G2A) ensures r == *self { unimplemented!() } }
impl G1P { pub uninterp spec fn v(&self) -> G1;
  #[verifier::external_body] pub fn add_assign(&mut self, o: &G1P) ensures final(self).v() == g1add(old(self).v(), o.v()) { unimplemented!() }
  #[verifier::external_body] pub fn into_affine(&self) -> (r: G1A) ensures r.v() == self.v() { unimplemented!() } }
impl G2A { pub uninterp spec fn v(&self) -> G2;
  #[verifier::external_body] pub fn prepare(&self) -> (r: G2Prep) ensures r.g@ == self.v() { unimplemented!() } }
impl Fqk { pub uninterp spec fn lg(&self) -> int; #[verifier::external_body] pub fn one() -> (r: Fqk) ensures r.lg() == 0 { unimplemented!() } }
impl PartialEqSpecImpl for Fqk { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fqk) -> bool { (self.lg() - o.lg()) % pmod() == 0 } }
impl PartialEq for Fqk { #[verifier::external_body] fn eq(&self, o: &Fqk) -> bool { unimplemented!() } }
pub struct MLoop { pub l: Ghost<int> }
pub open spec fn plsum(s: Seq<(&G1Prep, &G2Prep)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { plsum(s.drop_last()) + plog(s.last().0.g@, s.last().1.g@) } }
pub struct Eng { }
impl Eng {
  #[verifier::external_body] pub fn miller_loop<'b>(i: [(&'b G1Prep, &'b G2Prep); 4]) -> (r: MLoop) ensures r.l@ == plog(i[0].0.g@, i[0].1.g@) + plog(i[1].0.g@, i[1].1.g@) + plog(i[2].0.g@, i[2].1.g@) + plog(i[3].0.g@, i[3].1.g@) { unimplemented!() }
  #[verifier::external_body] pub fn final_exponentiation(m: &MLoop) -> (r: Option<Fqk>) ensures r.is_some(), r.unwrap().lg() == m.l@ { unimplemented!() }
}
// the dependency's proofs and keys
pub struct BProof { pub a: G1A, pub b: G2A, pub c: G1A }
#[verifier::external_body]
pub struct G1Vec { x: u8 }
pub struct VerifyingKey { pub alpha_g1: G1A, pub beta_g1: G1A, pub beta_g2: G2A, pub gamma_g2: G2A, pub delta_g1: G1A, pub delta_g2: G2A, pub ic: Vec<G1A> }
#[derive(Debug)]
pub enum SynthesisError { AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable }
/// the key elements weighted by the inputs
pub open spec fn icsum(ic: Seq<G1A>, x: Seq<T>, n: nat) -> G1 decreases n { if n == 0 { ic[0].v() } else { g1add(icsum(ic, x, (n - 1) as nat), g1mul(nint(Num(x[n - 1])), ic[n as int].v())) } }
/// A*B = alpha*beta + inputs*gamma + C*delta
pub open spec fn groth_ok(k: TruncatedVerifyingKey, p: BProof, x: Seq<T>) -> bool { (plog(p.a.v(), p.b.v()) - (plog(k.alpha_g1.v(), k.beta_g2.v()) + plog(icsum(k.ic@, x, x.len()), k.gamma_g2.v()) + plog(p.c.v(), k.delta_g2.v()))) % pmod() == 0 }
pub proof fn l_modneg(a: int, b: int, s: int) requires (a + b) % pmod() == 0 ensures ((a + s) % pmod() == 0) == ((b - s) % pmod() == 0)
{ ax_pmod(); let p = pmod(); if (a + s) % p == 0 { lemma_sub_mod_noop(a + b, a + s, p); assert((a + b) - (a + s) == b - s); assert((0int - 0) % p == 0) by (nonlinear_arith) requires p > 0; } if (b - s) % p == 0 { lemma_sub_mod_noop(a + b, b - s, p); assert((a + b) - (b - s) == a + s); assert((0int - 0) % p == 0) by (nonlinear_arith) requires p > 0; } }
pub proof fn l_groth(k: TruncatedVerifyingKey, p: BProof, x: Seq<T>) ensures groth_ok(k, p, x) == ((plog(g1neg(p.a.v()), p.b.v()) + plog(k.alpha_g1.v(), k.beta_g2.v()) + plog(icsum(k.ic@, x, x.len()), k.gamma_g2.v()) + plog(p.c.v(), k.delta_g2.v())) % pmod() == 0)
{ ax_pneg(p.a.v(), p.b.v()); l_modneg(plog(g1neg(p.a.v()), p.b.v()), plog(p.a.v(), p.b.v()), plog(k.alpha_g1.v(), k.beta_g2.v()) + plog(icsum(k.ic@, x, x.len()), k.gamma_g2.v()) + plog(p.c.v(), k.delta_g2.v())); }
## helpers::groth16::verifier|||truncate_verifying_key
ens: r.alpha_g1 == vk.alpha_g1, r.beta_g2 == vk.beta_g2, r.gamma_g2 == vk.gamma_g2, r.delta_g2 == vk.delta_g2, r.ic@ == vk.ic@
## helpers::groth16::verifier|||verify
req: public_inputs@.len() < usize::MAX
ens: r.is_ok() == (public_inputs@.len() + 1 == tvk.ic@.len()), r.is_ok() ==> r.unwrap() == groth_ok(*tvk, proof.0, public_inputs@)
loops: iter
subst: ] . iter ()) => ])
begin: l_groth(*tvk, proof.0, public_inputs@);
inv0: invariant __n0 == public_inputs@.len(), __s1@ == public_inputs@, __s4@ == tvk.ic@, __s4k == 1, public_inputs@.len() + 1 == tvk.ic@.len(), __i0 <= __n0, acc.v() == icsum(tvk.ic@, public_inputs@, __i0 as nat) decreases __n0 - __i0
