@area bitit
@include intview stdx
%% raw
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
/// bit i of an integer
pub open spec fn ibit(x: int, i: int) -> bool { (x / (pow2(i as nat) as int)) % 2 == 1 }
pub type E = Repr;
#[derive(Clone, Copy)]
pub struct BitIteratorLE { pub t: Repr, pub n: usize, pub sz: usize }
pub proof fn l_lval_bound(s: Seq<u64>) ensures 0 <= lval(s) < pow2(64 * s.len()) decreases s.len()
{ lemma2_to64(); lemma2_to64_rest(); if s.len() > 0 { l_lval_bound(s.skip(1)); lemma_pow2_adds(64, (64 * (s.len() - 1)) as nat); assert(64 * s.len() == 64 + 64 * (s.len() - 1)); let a = lval(s.skip(1)); let q = pow2((64 * (s.len() - 1)) as nat); assert(s[0] as int + 0x1_0000_0000_0000_0000 * a < 0x1_0000_0000_0000_0000 * q) by (nonlinear_arith) requires a < q, s[0] < 0x1_0000_0000_0000_0000; } }
pub proof fn l_limbbit(s: Seq<u64>, i: int) requires 0 <= i < 64 * s.len() ensures ibit(lval(s), i) == ibit(s[i / 64] as int, i % 64) decreases s.len()
{ lemma2_to64(); lemma2_to64_rest(); let t = s.skip(1); let l = lval(t); let a = s[0] as int; let m = 0x1_0000_0000_0000_0000int; l_lval_pos(t);
  if i < 64 { let b = i as nat; let p = pow2(b) as int; lemma_pow2_pos(b); lemma_pow2_adds(b, (64 - b) as nat); let h = pow2((64 - b) as nat) as int; assert(m * l == p * (h * l)) by (nonlinear_arith) requires m == p * h; 
    lemma_hoist_over_denominator(a, h * l, p as nat); assert((a + m * l) / p == a / p + h * l); lemma_pow2_unfold((64 - b) as nat); let g = pow2((63 - b) as nat) as int; assert(h * l == 2 * (g * l)) by (nonlinear_arith) requires h == 2 * g; lemma_mod_multiples_vanish(g * l, a / p, 2); assert(i / 64 == 0 && i % 64 == i); }
  else { let j = i - 64; l_limbbit(t, j); lemma_pow2_adds(64, j as nat); lemma_pow2_pos(j as nat); let v = a + m * l; lemma_div_denominator(v, m, pow2(j as nat) as int); assert(v / m == l) by { lemma_fundamental_div_mod_converse(v, m, l, a); } assert(s[i / 64] == t[j / 64]); assert(i % 64 == j % 64); } }
pub proof fn l_u64bit(x: u64, b: u64) requires b < 64 ensures (x & (1u64 << b) > 0) == ibit(x as int, b as int)
{ assert((x & (1u64 << b) > 0) == ((x >> b) & 1 == 1)) by (bit_vector) requires b < 64; let y = x >> b; assert(y & 1 == y % 2) by (bit_vector); vstd::bits::lemma_u64_shr_is_div(x, b); }
impl BitIteratorLE {
  pub open spec fn wf(&self) -> bool { self.sz == 64 * self.t.limbs().len() && self.n <= self.sz }
  /// rendering of Iterator::collect: what next yields until it yields nothing
  pub fn vcollect(self) -> (r: Vec<bool>) requires self.wf(), self.n == 0 ensures r@.len() == self.sz, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == ibit(self.t.rint(), i)
  { let mut s = self; let mut v = Vec::new(); let z = self.sz;
    while s.n < z invariant s.wf(), s.t == self.t, s.sz == z, z == self.sz, v@.len() == s.n, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == ibit(self.t.rint(), i) decreases z - s.n { match s.next() { Some(b) => { v.push(b); } None => { return v; } } } v }
}
impl<A> VVec<A> for Vec<A> { fn vlen(&self) -> (r: usize) { self.len() } fn vget(&self, i: usize) -> (r: &A) { &self[i] } open spec fn vs(&self) -> Seq<A> { self@ } }
pub trait VVec<A> { spec fn vs(&self) -> Seq<A>; fn vlen(&self) -> (r: usize) ensures r == self.vs().len(); fn vget(&self, i: usize) -> (r: &A) requires i < self.vs().len() ensures *r == self.vs()[i as int]; }
// TRUSTED facts about the field (evaluated by C04's and C16's checks): the bit length of the modulus; it spans at least half the machine width of its integers
pub uninterp spec fn nbits() -> nat;
pub axiom fn ax_nbits() ensures pow2((nbits() - 1) as nat) <= pmod() < pow2(nbits()), 32 * nlimbs() + 1 < nbits() <= 64 * nlimbs(), 64 * nlimbs() + 64 <= u32::MAX;
#[verifier::external_body]
pub fn fr_num_bits() -> (r: u32) ensures r == nbits() { unimplemented!() }
pub proof fn l_modstep(x: int, n: nat) requires 0 <= x ensures x % (pow2(n + 1) as int) == x % (pow2(n) as int) + if ibit(x, n as int) { pow2(n) as int } else { 0 }, pow2(n) > 0
{ lemma_pow2_unfold(n + 1); lemma_pow2_pos(n); lemma_mod_breakdown(x, pow2(n) as int, 2); assert(pow2(n) * 2 == pow2(n + 1)); let q = (x / (pow2(n) as int)) % 2; assert(pow2(n) * q == if q == 1 { pow2(n) as int } else { 0 }) by (nonlinear_arith) requires q == 0 || q == 1; }
## native::num||BitIteratorLE|new
req: 64 * t.limbs().len() <= usize::MAX
ens: r.wf(), r.n == 0, r.t == t
## native::num|Iterator|BitIteratorLE|next
inherent: 1
req: old(self).wf()
ens: final(self).wf(), final(self).t == old(self).t, final(self).sz == old(self).sz, old(self).n == old(self).sz ==> r.is_none() && final(self).n == old(self).n, old(self).n < old(self).sz ==> r == Some(ibit(old(self).t.rint(), old(self).n as int)) && final(self).n == old(self).n + 1
begin: if self.n < self.sz { l_limbbit(self.t.limbs(), self.n as int); let x = self.t.limbs()[self.n as int / 64]; let b = (self.n % 64) as u64; l_u64bit(x, b); assert((self.n - 64 * (self.n / 64)) as u64 == b); assert(forall|z: usize| z == b ==> #[trigger] (1u64 << z) == (1u64 << b)); }
## native::num||Num|iterbit_le
ens: r.wf(), r.n == 0, r.t.rint() == nint(*self), r.sz == 64 * nlimbs()
begin: ax_nbits();
