@area conv
@include bitit stdx2
%% raw
use core::ops::Rem;
/// the integer of big-endian bytes
pub open spec fn beval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 256 * beval(s.drop_last()) + s.last() } }
pub open spec fn nbytes() -> nat { (nbits() + 7) / 8 }
// TRUSTED fact about the fields used (evaluated by C16's check): their machine integers are as short as their bit length allows
pub axiom fn ax_nbytes() ensures 8 * nlimbs() == nbytes();
// TRUSTED: num_bigint's integers and the byte I/O of the field's integers
#[verifier::external_body]
pub struct BigUint { x: u64 }
#[verifier::external_body]
pub struct BigInt { x: u64 }
#[derive(Debug)]
pub struct IoErr { }
impl VUnwrap<()> for Result<(), IoErr> { open spec fn vsome(&self) -> bool { self.is_ok() } open spec fn vval(&self) -> () { () } fn vunwrap(self) -> (r: ()) { match self { Ok(x) => x, Err(_) => reject() } } }
impl BigUint {
  pub uninterp spec fn v(&self) -> nat;
  #[verifier::external_body] pub fn from_bytes_be(b: &[u8]) -> (r: BigUint) ensures r.v() == beval(b@) { unimplemented!() }
  #[verifier::external_body] pub fn to_bytes_be(&self) -> (r: Vec<u8>) ensures beval(r@) == self.v(), r@.len() >= 1, r@.len() > 1 ==> r@[0] != 0 { unimplemented!() }
  #[verifier::external_body] pub fn to_bigint(&self) -> (r: Option<BigInt>) ensures r.is_some(), r.unwrap().v() == self.v() { unimplemented!() }
}
impl BigInt {
  // x % &y
  #[verifier::external_body] pub fn vrem(self, o: &BigInt) -> (r: BigInt) requires o.v() > 0 ensures r.v() == trem(self.v(), o.v()) { unimplemented!() }
  pub uninterp spec fn v(&self) -> int;
  #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self.v() < 0) { unimplemented!() }
  #[verifier::external_body] pub fn to_biguint(&self) -> (r: Option<BigUint>) ensures r.is_some() == (self.v() >= 0), r.is_some() ==> r.unwrap().v() == self.v() { unimplemented!() }
}
/// the remainder with the sign of the dividend
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
impl RemSpecImpl<BigUint> for BigUint { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, o: BigUint) -> bool { o.v() != 0 } open spec fn rem_spec(self, o: BigUint) -> BigUint { arbitrary() } }
impl Rem<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, o: BigUint) -> (r: BigUint) ensures r.v() == self.v() % o.v() { unimplemented!() } }
impl AddAssignSpecImpl<BigInt> for BigInt { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: BigInt) -> bool { true } open spec fn add_assign_spec(&self, o: BigInt) -> &BigInt { arbitrary() } }
impl AddAssign<BigInt> for BigInt { #[verifier::external_body] fn add_assign(&mut self, o: BigInt) ensures final(self).v() == old(self).v() + o.v() { unimplemented!() } }
impl Repr {
  #[verifier::external_body] pub fn write_be(&self, w: &mut Vec<u8>) -> (r: Result<(), IoErr>) ensures final(w)@.len() == old(w)@.len(), r.is_ok() == (old(w)@.len() >= 8 * self.limbs().len()), old(w)@.len() == 8 * self.limbs().len() ==> beval(final(w)@) == self.rint() { unimplemented!() }
  #[verifier::external_body] pub fn read_be(&mut self, w: &Vec<u8>) -> (r: Result<(), IoErr>) ensures final(self).limbs().len() == old(self).limbs().len(), r.is_ok() == (w@.len() >= 8 * old(self).limbs().len()), w@.len() == 8 * old(self).limbs().len() ==> final(self).rint() == beval(w@) { unimplemented!() }
}
#[verifier::external_body]
pub fn fr_char() -> (r: Repr) ensures r.rint() == pmod(), r.limbs().len() == nlimbs() { unimplemented!() }
pub proof fn l_bebound(s: Seq<u8>) ensures 0 <= beval(s) < pow2(8 * s.len()) decreases s.len()
{ lemma2_to64(); if s.len() > 0 { l_bebound(s.drop_last()); lemma_pow2_adds(8, (8 * (s.len() - 1)) as nat); assert(8 * s.len() == 8 + 8 * (s.len() - 1)); } }
pub proof fn l_below(s: Seq<u8>) requires s.len() >= 1, s[0] != 0 ensures beval(s) >= pow2((8 * (s.len() - 1)) as nat) decreases s.len()
{ lemma2_to64(); if s.len() > 1 { assert(s.drop_last()[0] == s[0]); l_below(s.drop_last()); lemma_pow2_adds(8, (8 * (s.len() - 2)) as nat); assert(8 * (s.len() - 1) == 8 + 8 * (s.len() - 2)); } else { assert(beval(s.drop_last()) == 0); assert(s.last() == s[0]); } }
/// the minimal bytes of a number below the modulus fit, and zeros in front change nothing
pub proof fn l_befit(s: Seq<u8>) requires s.len() >= 1, s.len() > 1 ==> s[0] != 0, beval(s) < pmod() ensures s.len() <= nbytes(), nbytes() == 8 * nlimbs(), nbytes() <= u32::MAX
{ ax_nbytes(); ax_nbits(); ax_pmod(); if s.len() > nbytes() { l_below(s); if nbits() < 8 * (s.len() - 1) { lemma_pow2_strictly_increases(nbits(), (8 * (s.len() - 1)) as nat); } } }
pub proof fn l_bezero(z: Seq<u8>, s: Seq<u8>) requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures beval(z + s) == beval(s) decreases s.len(), z.len()
{ if s.len() > 0 { assert((z + s).drop_last() =~= z + s.drop_last()); l_bezero(z, s.drop_last()); } else { assert(z + s =~= z); if z.len() > 0 { l_bezero(z.drop_last(), s); assert(z.drop_last() + s =~= z.drop_last()); } } }
pub proof fn l_nbytes(n: u32) ensures n >> 3 == n / 8, (n & 7 == 0) == (n % 8 == 0) { assert(n >> 3 == n / 8) by (bit_vector); assert((n & 7 == 0) == (n % 8 == 0)) by (bit_vector); }
pub proof fn l_conv() ensures nbytes() == 8 * nlimbs(), nbytes() <= u32::MAX, pmod() > 0, nlimbs() >= 1 { ax_nbytes(); ax_nbits(); ax_pmod(); }
pub proof fn l_befit_all() ensures forall|s: Seq<u8>| s.len() >= 1 && (s.len() > 1 ==> s[0] != 0) && #[trigger] beval(s) < pmod() ==> s.len() <= nbytes(), forall|z: Seq<u8>, s: Seq<u8>| (forall|i: int| 0 <= i < z.len() ==> z[i] == 0) ==> #[trigger] beval(z + s) == beval(s), nbytes() == 8 * nlimbs(), nbytes() <= u32::MAX, pmod() > 0, nlimbs() >= 1
{ l_conv(); assert forall|s: Seq<u8>| s.len() >= 1 && (s.len() > 1 ==> s[0] != 0) && #[trigger] beval(s) < pmod() implies s.len() <= nbytes() by { l_befit(s); }
  assert forall|z: Seq<u8>, s: Seq<u8>| (forall|i: int| 0 <= i < z.len() ==> z[i] == 0) implies #[trigger] beval(z + s) == beval(s) by { l_bezero(z, s); } }
pub proof fn l_trem(x: int) ensures ({ let t = trem(x, pmod()); let u = if t < 0 { t + pmod() } else { t }; 0 <= u < pmod() && fint(u) == fint(x) })
{ ax_pmod(); let p = pmod(); let t = trem(x, p); let u = if t < 0 { t + p } else { t }; l_fint_mod(x); l_fint_mod(u); lemma_mod_bound(x, p); lemma_mod_bound(-x, p); if x < 0 { lemma_fundamental_div_mod(-x, p); let q = (-x) / p; assert(x == t + (-q) * p) by (nonlinear_arith) requires -x == p * q + (-x) % p, t == -((-x) % p); if t < 0 { assert(x == u + (-q - 1) * p) by (nonlinear_arith) requires x == t + (-q) * p, u == t + p; lemma_fundamental_div_mod_converse(x, p, -q - 1, u); } else { lemma_fundamental_div_mod_converse(x, p, -q, t); } } lemma_small_mod(u as nat, p as nat); }
/// the k big-endian bytes of an integer
pub open spec fn be_of(x: int, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { be_of(x / 256, (k - 1) as nat).push((x % 256) as u8) } }
pub proof fn l_beof(s: Seq<u8>) ensures s == be_of(beval(s), s.len()) decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); l_beof(t); l_bebound(t); let v = beval(s); lemma_fundamental_div_mod_converse(v, 256, beval(t), s.last() as int); assert(s =~= t.push(s.last())); } else { assert(s =~= Seq::<u8>::empty()); } }
pub proof fn l_beof_all() ensures forall|s: Seq<u8>| s == be_of(#[trigger] beval(s), s.len()) { assert forall|s: Seq<u8>| s == be_of(#[trigger] beval(s), s.len()) by { l_beof(s); } }
// TRUSTED: the hash function of blake2_rfc, a function of its parameters and of the concatenation of its updates
pub uninterp spec fn blake(n: int, key: Seq<u8>, salt: Seq<u8>, persona: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub struct Blake2s { pub n: usize, pub k: Ghost<Seq<u8>>, pub s: Ghost<Seq<u8>>, pub p: Ghost<Seq<u8>>, pub d: Ghost<Seq<u8>> }
#[verifier::external_body]
pub struct BlakeOut { x: u8 }
impl BlakeOut { pub uninterp spec fn v(&self) -> Seq<u8>; #[verifier::external_body] pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() } }
impl Blake2s {
  pub fn with_params(n: usize, key: &[u8], salt: &[u8], persona: &[u8]) -> (r: Blake2s) ensures r.n == n, r.k@ == key@, r.s@ == salt@, r.p@ == persona@, r.d@ == Seq::<u8>::empty(), key@.len() == 0 ==> key@ =~= Seq::<u8>::empty(), salt@.len() == 0 ==> salt@ =~= Seq::<u8>::empty() { Blake2s { n, k: Ghost(key@), s: Ghost(salt@), p: Ghost(persona@), d: Ghost(Seq::empty()) } }
  pub fn update(&mut self, b: &[u8]) ensures final(self).n == old(self).n, final(self).k == old(self).k, final(self).s == old(self).s, final(self).p == old(self).p, final(self).d@ == old(self).d@ + b@ { self.d = Ghost(self.d@ + b@); }
  #[verifier::external_body] pub fn finalize(self) -> (r: BlakeOut) ensures r.v() == blake(self.n as int, self.k@, self.s@, self.p@, self.d@) { unimplemented!() }
}
/// the library's personalised hash of some bytes
pub open spec fn phash(n: int, data: Seq<u8>) -> Seq<u8> { blake(n, Seq::empty(), Seq::empty(), persona(), data) }
pub uninterp spec fn persona() -> Seq<u8>;
#[verifier::external_body]
pub exec const PERSONALIZATION: &'static [u8; 8] ensures PERSONALIZATION@ == persona() { b"xxxxxxxx" }
pub proof fn l_phash() ensures forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s, forall|s: Seq<u8>| s.len() == 0 ==> s == Seq::<u8>::empty() { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
/// the element a seed or salt stands for
#[verifier::opaque]
pub open spec fn seednum(s: Seq<u8>) -> Num { fint(beval(phash(nbytes() as int, s))) }
## native::num||Num|from_seed
ens: r == seednum(blob@)
begin: l_phash(); reveal(seednum);
## native::num||Num|num_bytes
ens: r == nbytes()
begin: ax_nbits(); l_nbytes(nbits() as u32);
## native::num||Num|into_binary_be
ens: r@ == be_of(nint(*self), nbytes()), r@.len() == nbytes(), beval(r@) == nint(*self)
begin: l_conv(); l_beof_all();
## native::num|From<BigUint>|Num|from
ens: r == fint(x.v() as int)
begin: l_befit_all(); l_fint_mod(x.v() as int); lemma_mod_bound(x.v() as int, pmod());
## native::num|From<BigInt>|Num|from
ens: r == fint(x.v())
subst: x % & order => x . vrem (& order)
begin: l_befit_all(); l_trem(x.v());
## native::num||Num|from_binary_be
ens: r == fint(beval(blob@))
## native::num|Into<BigUint>|Num|into
inherent: 1
rename: into_biguint
ens: r.v() == nint(self)
begin: l_conv();
## native::num|Into<u64>|Num|into
inherent: 1
rename: into_u64
req: honest() ==> nint(self) < 0x1_0000_0000_0000_0000
ens: nint(self) < 0x1_0000_0000_0000_0000, r == nint(self)
loops: iter
begin: ax_pmod();
inv0: invariant nlimbs() >= 1, r@.len() == nlimbs(), __n0 == nlimbs() - 1, __s2 == 1, __i0 <= __n0, __o0 == (forall|j: int| 1 <= j < 1 + __i0 ==> r@[j] == 0) decreases __n0 - __i0
post0: proof { l_lval_one(r@); }
