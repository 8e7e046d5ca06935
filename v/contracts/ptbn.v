@area ptbn
@include intview stdx2 coll
@sub Into :: < bn256 :: G1Affine > :: into => bg1_into
@sub Into :: < bn256 :: G2Affine > :: into => bg2_into
@sub bn256 :: Fq2 => Fq2
@sub bn256 :: FqRepr => FqRepr
@sub bn256 :: Fq => T
@sub bn256 :: G1Affine => G1Affine
@sub bn256 :: G2Affine => G2Affine
@sub bn256 :: Fr :: char => grp_char
@sub & BN256_B_COEFF_FQ2 => & BN256BCOEFFFQ2_deref____static_ref_initialize ()
@sub & BN256_B_COEFF => & BN256BCOEFF_deref____static_ref_initialize ()
@sub < Fe > =>
@sub < T > =>
@sub bellman :: groth16 :: Proof < E > => BProof
@sub bellman :: groth16 :: Proof => BProof
@sub Proof < bn256 :: Bn256 > => Proof
@sub TruncatedVerifyingKey < bn256 :: Bn256 > => TruncatedVerifyingKey
@sub E :: G1Affine => G1Affine
@sub E :: G2Affine => G2Affine
@types helpers::groth16|type|G1PointData=#[derive(Clone,~Copy)] helpers::groth16|type|G2PointData=#[derive(Clone,~Copy)] helpers::groth16::prover|type|Proof helpers::groth16::prover|type|ProofData helpers::groth16::verifier|type|TruncatedVerifyingKey helpers::groth16::verifier|type|TruncatedVerifyingKeyData
%% raw
// TRUSTED: the curve types of the pairing library: affine points are (x, y, infinity), their layout is that of the tuple
#[derive(Clone, Copy)]
pub struct Fq2 { pub c0: T, pub c1: T }
#[derive(Clone, Copy)]
pub struct G1Affine { pub x: T, pub y: T, pub infinity: bool }
#[derive(Clone, Copy)]
pub struct G2Affine { pub x: Fq2, pub y: Fq2, pub infinity: bool }
pub struct BProof { pub a: G1Affine, pub b: G2Affine, pub c: G1Affine }
pub trait VTr<B>: Sized { spec fn vtr(self) -> B; }
impl VTr<(T, T, bool)> for G1Affine { open spec fn vtr(self) -> (T, T, bool) { (self.x, self.y, self.infinity) } }
impl VTr<(Fq2, Fq2, bool)> for G2Affine { open spec fn vtr(self) -> (Fq2, Fq2, bool) { (self.x, self.y, self.infinity) } }
impl VTr<G1Affine> for (T, T, bool) { open spec fn vtr(self) -> G1Affine { G1Affine { x: self.0, y: self.1, infinity: self.2 } } }
impl VTr<G2Affine> for (Fq2, Fq2, bool) { open spec fn vtr(self) -> G2Affine { G2Affine { x: self.0, y: self.1, infinity: self.2 } } }
#[verifier::external_body]
pub fn transmute<A: VTr<B>, B>(a: A) -> (r: B) ensures r == a.vtr() { unimplemented!() }
// TRUSTED: arithmetic of the base field and of its quadratic extension, u^2 = -1 in both curves of the library
pub trait AField: Sized + Copy {
  spec fn zero_() -> Self; spec fn add_(a: Self, b: Self) -> Self; spec fn mul_(a: Self, b: Self) -> Self;
  fn is_zero(&self) -> (r: bool) ensures r == (*self == Self::zero_());
  fn square(&mut self) ensures *final(self) == Self::mul_(*old(self), *old(self));
  fn mul_assign(&mut self, o: &Self) ensures *final(self) == Self::mul_(*old(self), *o);
  fn add_assign(&mut self, o: &Self) ensures *final(self) == Self::add_(*old(self), *o);
  fn negate(&mut self) ensures Self::add_(*final(self), *old(self)) == Self::zero_();
  fn afeq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o);
}
impl AField for Fq2 {
  open spec fn zero_() -> Self { Fq2 { c0: f0().0, c1: f0().0 } }
  open spec fn add_(a: Self, b: Self) -> Self { Fq2 { c0: fadd(Num(a.c0), Num(b.c0)).0, c1: fadd(Num(a.c1), Num(b.c1)).0 } }
  open spec fn mul_(a: Self, b: Self) -> Self { Fq2 { c0: fsub(fmul(Num(a.c0), Num(b.c0)), fmul(Num(a.c1), Num(b.c1))).0, c1: fadd(fmul(Num(a.c0), Num(b.c1)), fmul(Num(a.c1), Num(b.c0))).0 } }
  #[verifier::external_body] fn is_zero(&self) -> bool { unimplemented!() }
  #[verifier::external_body] fn square(&mut self) { unimplemented!() }
  #[verifier::external_body] fn mul_assign(&mut self, o: &Self) { unimplemented!() }
  #[verifier::external_body] fn add_assign(&mut self, o: &Self) { unimplemented!() }
  #[verifier::external_body] fn negate(&mut self) { unimplemented!() }
  #[verifier::external_body] fn afeq(&self, o: &Self) -> bool { unimplemented!() }
}
impl AField for T {
  open spec fn zero_() -> Self { f0().0 }
  open spec fn add_(a: Self, b: Self) -> Self { fadd(Num(a), Num(b)).0 }
  open spec fn mul_(a: Self, b: Self) -> Self { fmul(Num(a), Num(b)).0 }
  #[verifier::external_body] fn is_zero(&self) -> bool { unimplemented!() }
  #[verifier::external_body] fn square(&mut self) { unimplemented!() }
  #[verifier::external_body] fn mul_assign(&mut self, o: &Self) { unimplemented!() }
  #[verifier::external_body] fn add_assign(&mut self, o: &Self) { unimplemented!() }
  #[verifier::external_body] fn negate(&mut self) { unimplemented!() }
  #[verifier::external_body] fn afeq(&self, o: &Self) -> bool { unimplemented!() }
}
/// the short Weierstrass equation
pub open spec fn on_curve<A: AField>(x: A, y: A, b: A) -> bool { A::mul_(y, y) == A::add_(A::mul_(A::mul_(x, x), x), b) }
// TRUSTED: raw (Montgomery) representations
pub struct FqRepr(pub [u64; 4]);
pub open spec fn rawint(l: [u64; 4]) -> int { l[0] + 18446744073709551616int * (l[1] + 18446744073709551616int * (l[2] + 18446744073709551616int * l[3])) }
pub open spec fn qmod() -> int { (4332616871279656263int + 18446744073709551616int * (10917124144477883021int + 18446744073709551616int * (13281191951274694749int + 18446744073709551616int * 3486998266802970665int))) }
pub open spec fn rmod() -> int { 18446744073709551616int * 18446744073709551616int * 18446744073709551616int * 18446744073709551616int }
/// the element an integer stands for
pub uninterp spec fn fe(k: int) -> T;
pub open spec fn israw(k: int, raw: int) -> bool { (k * rmod() - raw) % qmod() == 0 }
impl T { #[verifier::external_body] pub fn from_raw_repr(r: FqRepr) -> (t: Option<T>) ensures t.is_some() == (rawint(r.0) < qmod()), t.is_some() ==> forall|k: int| #[trigger] israw(k, rawint(r.0)) ==> t.unwrap() == fe(k) { unimplemented!() } }
/// y^2 = x^3 + 3; the twist: y^2 = x^3 + 3/(9+u) = x^3 + (27 - 3u)/82
pub open spec fn bc1() -> T { fe(3) }
pub open spec fn tw0() -> int { (3632125457679333605int + 18446744073709551616int * (13093307605518643107int + 18446744073709551616int * (9348936922344483523int + 18446744073709551616int * 3104278944836790958int))) }
pub open spec fn tw1() -> int { (16474938222586303954int + 18446744073709551616int * (12056031220135172178int + 18446744073709551616int * (14784384838321896948int + 18446744073709551616int * 42524369107353300int))) }
pub open spec fn bc2() -> Fq2 { Fq2 { c0: fe(tw0()), c1: fe(tw1()) } }
pub proof fn l_twist() ensures (82 * tw0() - 27) % qmod() == 0, (82 * tw1() + 3) % qmod() == 0 { assert((82 * tw0() - 27) % qmod() == 0) by (compute); assert((82 * tw1() + 3) % qmod() == 0) by (compute); }
// TRUSTED: multiples of points, as far as being the identity goes
#[verifier::external_body]
pub struct FrRepr { x: u8 }
impl FrRepr { pub uninterp spec fn rint(&self) -> int; }
pub uninterp spec fn group_order() -> int;
#[verifier::external_body]
pub fn grp_char() -> (r: FrRepr) ensures r.rint() == group_order() { unimplemented!() }
pub uninterp spec fn killed1(p: G1Affine, n: int) -> bool;
pub uninterp spec fn killed2(p: G2Affine, n: int) -> bool;
pub struct G1Mul { pub p: Ghost<G1Affine>, pub n: Ghost<int> }
pub struct G2Mul { pub p: Ghost<G2Affine>, pub n: Ghost<int> }
impl G1Mul { #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == killed1(self.p@, self.n@) { unimplemented!() } }
impl G2Mul { #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == killed2(self.p@, self.n@) { unimplemented!() } }
impl G1Affine { #[verifier::external_body] pub fn mul(&self, n: FrRepr) -> (r: G1Mul) ensures r.p@ == *self, r.n@ == n.rint() { unimplemented!() } }
impl G2Affine { #[verifier::external_body] pub fn mul(&self, n: FrRepr) -> (r: G2Mul) ensures r.p@ == *self, r.n@ == n.rint() { unimplemented!() } }
/// what an exported point is: the coordinates, zeros for the identity; the second coordinate of a quadratic extension element comes first
pub open spec fn exp1(p: G1Affine) -> G1PointData { if p.infinity { G1PointData(f0(), f0()) } else { G1PointData(Num(p.x), Num(p.y)) } }
pub open spec fn exp2(p: G2Affine) -> G2PointData { if p.infinity { G2PointData((f0(), f0()), (f0(), f0())) } else { G2PointData((Num(p.x.c1), Num(p.x.c0)), (Num(p.y.c1), Num(p.y.c0))) } }
/// the point an exported pair of coordinates stands for
pub open spec fn imp1(d: G1PointData) -> G1Affine { G1Affine { x: d.0.0, y: d.1.0, infinity: d.0 == f0() && d.1 == f0() } }
pub open spec fn imp2(d: G2PointData) -> G2Affine { G2Affine { x: Fq2 { c0: d.0.1.0, c1: d.0.0.0 }, y: Fq2 { c0: d.1.1.0, c1: d.1.0.0 }, infinity: d.0.0 == f0() && d.0.1 == f0() && d.1.0 == f0() && d.1.1 == f0() } }
/// on the curve of this pairing and in its subgroup of prime order
pub open spec fn ok1(p: G1Affine, b: T) -> bool { p.infinity || on_curve(p.x, p.y, b) }
pub open spec fn ok2(p: G2Affine, b: Fq2) -> bool { (p.infinity || on_curve(p.x, p.y, b)) && killed2(p, group_order()) }
pub open spec fn good1(d: G1PointData) -> bool { ok1(imp1(d), bc1()) }
pub open spec fn good2(d: G2PointData) -> bool { ok2(imp2(d), bc2()) }
/// export and import are inverse to each other, up to the representation of the identity
pub proof fn l_expimp1(d: G1PointData) ensures exp1(imp1(d)) == d { }
pub proof fn l_expimp2(d: G2PointData) ensures exp2(imp2(d)) == d { }
pub proof fn l_impexp1(p: G1Affine, b: T) requires ok1(p, b), b != f0().0 ensures imp1(exp1(p)) == p || (p.infinity && imp1(exp1(p)).infinity)
{ broadcast use fieldax; if !p.infinity && Num(p.x) == f0() && Num(p.y) == f0() { assert(fadd(f0(), Num(b)) == f0()); assert(Num(b) == f0()); } }
pub fn bg1_into(p: G1PointData) -> (r: G1Affine) requires honest() ==> good1(p) ensures r == imp1(p), good1(p) { p.into() }
pub fn bg2_into(p: G2PointData) -> (r: G2Affine) requires honest() ==> good2(p) ensures r == imp2(p), good2(p) { p.into() }
impl TruncatedVerifyingKeyData { pub open spec fn good(&self) -> bool { good1(self.alpha_g1) && good2(self.beta_g2) && good2(self.gamma_g2) && good2(self.delta_g2) && (forall|i: int| 0 <= i < self.ic@.len() ==> good1(#[trigger] self.ic@[i])) } }
## helpers::groth16|||BN256BCOEFF_deref____static_ref_initialize
ens: r == bc1()
begin: assert(israw(3, rawint([0x7a17caa950ad28d7, 0x1f6ac17ae15521b9, 0x334bea4e696bd284, 0x2a1f6744ce179d8e]))) by (compute);
## helpers::groth16|||BN256BCOEFFFQ2_deref____static_ref_initialize
ens: r == bc2()
begin: assert(israw(tw0(), rawint([0x3bf938e377b802a8 , 0x020b1b273633535d , 0x26b7edf049755260 , 0x2514c6324384a86d]))) by (compute); assert(israw(tw1(), rawint([0x38e7ecccd1dcff67, 0x65f0b37d93ce0d3e, 0xd749d0dd22ac00aa, 0x0141b9ce4a688d4d]))) by (compute);
## helpers::groth16|||is_on_curve
sig: fn is_on_curve<Fe: AField>(x: Fe, y: Fe, is_zero: bool, b: &Fe) -> (r: bool)
ens: r == (is_zero || on_curve(x, y, *b))
subst: y2 == x3b => y2 . afeq (& x3b)
## helpers::groth16|From<bn256::G1Affine>|G1PointData<bn256::Fq>|from
ens: r == exp1(p)
## helpers::groth16|From<bn256::G2Affine>|G2PointData<bn256::Fq>|from
ens: r == exp2(p)
## helpers::groth16|Into<bn256::G1Affine>|G1PointData<bn256::Fq>|into
inherent: yes
req: honest() ==> good1(self)
ens: r == imp1(self), good1(self)
## helpers::groth16|Into<bn256::G2Affine>|G2PointData<bn256::Fq>|into
inherent: yes
req: honest() ==> good2(self)
ens: r == imp2(self), good2(self)
## helpers::groth16::prover||Proof<bn256::Bn256>|into_data
ens: r.a == exp1(self.0.a), r.b == exp2(self.0.b), r.c == exp1(self.0.c)
## helpers::groth16::prover||Proof<bn256::Bn256>|from_data
req: honest() ==> good1(p.a) && good2(p.b) && good1(p.c)
ens: r.0.a == imp1(p.a), r.0.b == imp2(p.b), r.0.c == imp1(p.c), good1(p.a), good2(p.b), good1(p.c)
## helpers::groth16::verifier||TruncatedVerifyingKey<bn256::Bn256>|into_data
loops: iter
ens: r.alpha_g1 == exp1(self.alpha_g1), r.beta_g2 == exp2(self.beta_g2), r.gamma_g2 == exp2(self.gamma_g2), r.delta_g2 == exp2(self.delta_g2), r.ic@.len() == self.ic@.len(), forall|i: int| 0 <= i < r.ic@.len() ==> #[trigger] r.ic@[i] == exp1(self.ic@[i])
inv0: invariant __n0 == self.ic@.len(), __s1@ == self.ic@, __i0 <= __n0, __o0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __o0@[i] == exp1(self.ic@[i]) decreases __n0 - __i0
## helpers::groth16::verifier||TruncatedVerifyingKey<bn256::Bn256>|from_data
loops: iter
req: honest() ==> vk.good()
ens: vk.good(), r.alpha_g1 == imp1(vk.alpha_g1), r.beta_g2 == imp2(vk.beta_g2), r.gamma_g2 == imp2(vk.gamma_g2), r.delta_g2 == imp2(vk.delta_g2), r.ic@.len() == vk.ic@.len(), forall|i: int| 0 <= i < r.ic@.len() ==> #[trigger] r.ic@[i] == imp1(vk.ic@[i])
inv0: invariant honest() ==> vk.good(), __n0 == vk.ic@.len(), __s1@ == vk.ic@, __i0 <= __n0, __o0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __o0@[i] == imp1(vk.ic@[i]), forall|i: int| 0 <= i < __i0 ==> good1(#[trigger] vk.ic@[i]) decreases __n0 - __i0
