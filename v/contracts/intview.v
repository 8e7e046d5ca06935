@area intview
@include native_num ring
%% raw
// the integer view of the field: TRUSTED facts about a prime field of odd order above 2^64 and its integer representation (pairing_ce / ff_ce)
pub uninterp spec fn pmod() -> int;
pub uninterp spec fn nint(a: Num) -> int;
pub uninterp spec fn nlimbs() -> nat;
pub axiom fn ax_pmod() ensures pmod() > 0x1_0000_0000_0000_0000, pmod() % 2 == 1, nlimbs() >= 1;
pub axiom fn ax_nint(a: Num) ensures 0 <= nint(a) < pmod(), fint(nint(a)) == a;
pub axiom fn ax_fint0(n: int) ensures (fint(n) == f0()) == (n % pmod() == 0);
pub proof fn l_fint_sub(a: int, b: int) ensures fint(a - b) == fsub(fint(a), fint(b)) { l_fint_neg(b); l_fint_add(a, -b); }
pub proof fn l_fint_inj(a: int, b: int) requires 0 <= a < pmod(), 0 <= b < pmod(), fint(a) == fint(b) ensures a == b
{ broadcast use fieldax; ax_pmod(); l_fint_sub(a, b); ax_fint0(a - b); let d = a - b; if d != 0 { if d > 0 { vstd::arithmetic::div_mod::lemma_small_mod(d as nat, pmod() as nat); } else { vstd::arithmetic::div_mod::lemma_small_mod((d + pmod()) as nat, pmod() as nat); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(d, pmod()); } } }
pub proof fn l_nint(n: int) requires 0 <= n < pmod() ensures nint(fint(n)) == n { ax_nint(fint(n)); l_fint_inj(nint(fint(n)), n); }
pub proof fn l_fint_mod(n: int) ensures fint(n % pmod()) == fint(n), nint(fint(n)) == n % pmod()
{ broadcast use fieldax; ax_pmod(); let p = pmod(); let m = n % p; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p); vstd::arithmetic::div_mod::lemma_mod_bound(n, p); l_fint_sub(n, m); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n / p, p); assert(n - m == (n / p) * p) by (nonlinear_arith) requires n == p * (n / p) + m; ax_fint0(n - m); l_nint(m); }
pub proof fn l_nint01() ensures nint(f0()) == 0, nint(f1()) == 1 { l_fint01(); ax_pmod(); l_nint(0); l_nint(1); }
pub proof fn l_nint_neg(a: Num) ensures nint(fneg(a)) == if a == f0() { 0 } else { pmod() - nint(a) }
{ broadcast use fieldax; ax_pmod(); ax_nint(a); l_neg0(); l_nint01(); l_fint01(); if a != f0() { l_fint_sub(pmod(), nint(a)); ax_fint0(pmod()); vstd::arithmetic::div_mod::lemma_mod_self_0(pmod()); l_add0l(fneg(a)); l_nint(pmod() - nint(a)); } }
/// negation flips the parity of every element but zero
pub proof fn l_parity(a: Num) requires a != f0() ensures (nint(fneg(a)) % 2 == 1) == (nint(a) % 2 == 0), (nint(fneg(a)) % 2 == 0) == (nint(a) % 2 == 1) { l_nint_neg(a); ax_pmod(); ax_nint(a); }
pub proof fn l_char2() ensures fint(2) != f0() { ax_fint0(2); ax_pmod(); vstd::arithmetic::div_mod::lemma_small_mod(2, pmod() as nat); }
// TRUSTED: the integer representation type of the field implementation
pub open spec fn lval(s: Seq<u64>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] as int + 0x1_0000_0000_0000_0000 * lval(s.skip(1)) } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Repr { x: u64 }
impl Repr {
  pub uninterp spec fn limbs(&self) -> Seq<u64>;
  pub open spec fn rint(&self) -> int { lval(self.limbs()) }
  #[verifier::external_body] pub fn is_odd(&self) -> (r: bool) ensures r == (self.rint() % 2 == 1) { unimplemented!() }
  #[verifier::external_body] pub fn is_even(&self) -> (r: bool) ensures r == (self.rint() % 2 == 0) { unimplemented!() }
  #[verifier::external_body] pub fn vset(&mut self, i: usize, n: u64) requires i < old(self).limbs().len() ensures final(self).limbs() == old(self).limbs().update(i as int, n) { unimplemented!() }
  #[verifier::external_body] pub fn vas_ref(&self) -> (r: &Vec<u64>) ensures r@ == self.limbs() { unimplemented!() }
}
#[derive(Debug)]
pub struct ReprErr { }
impl VUnwrap<T> for Result<T, ReprErr> { open spec fn vsome(&self) -> bool { self.is_ok() } open spec fn vval(&self) -> T { self.unwrap() } fn vunwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => reject() } } }
impl T {
  #[verifier::external_body] pub fn into_repr(&self) -> (r: Repr) ensures r.rint() == nint(Num(*self)), r.limbs().len() == nlimbs() { unimplemented!() }
  #[verifier::external_body] pub fn into_raw_repr(&self) -> (r: Repr) ensures r.limbs().len() == nlimbs(), Num(*self) == f0() ==> r.limbs() == Seq::new(nlimbs(), |i: int| 0u64) { unimplemented!() }
  #[verifier::external_body] pub fn from_repr(x: Repr) -> (r: Result<T, ReprErr>) ensures r.is_ok() == (x.rint() < pmod()), r.is_ok() ==> Num(r.unwrap()) == fint(x.rint()) { unimplemented!() }
}
pub proof fn l_lval0(s: Seq<u64>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0 ensures lval(s) == 0 decreases s.len() { if s.len() > 0 { l_lval0(s.skip(1)); } }
pub proof fn l_lval1(s: Seq<u64>, n: u64) requires s == Seq::new(nlimbs(), |i: int| 0u64).update(0, n) ensures lval(s) == n { ax_pmod(); l_lval0(s.skip(1)); }
pub proof fn l_lval_pos(s: Seq<u64>) ensures lval(s) >= 0 decreases s.len() { if s.len() > 0 { l_lval_pos(s.skip(1)); } }
pub proof fn l_lval_one(s: Seq<u64>) requires s.len() >= 1 ensures (lval(s) < 0x1_0000_0000_0000_0000) == (forall|i: int| 1 <= i < s.len() ==> s[i] == 0), lval(s) < 0x1_0000_0000_0000_0000 ==> lval(s) == s[0] decreases s.len()
{ let t = s.skip(1); l_lval_pos(t); l_lval_pos(t.skip(1)); if t.len() > 0 { l_lval_one(t); }
  if forall|i: int| 1 <= i < s.len() ==> s[i] == 0 { assert forall|i: int| 0 <= i < t.len() implies t[i] == 0 by { assert(t[i] == s[i + 1]); } l_lval0(t); }
  if lval(t) == 0 { assert forall|i: int| 1 <= i < s.len() implies s[i] == 0 by { assert(s[i] == t[i - 1]); if i >= 2 { assert(t[i - 1] == 0); } } } }
pub fn vuabs64(n: i64) -> (r: u64) ensures r == if n < 0 { -n } else { n as int } { if n == i64::MIN { 0x8000_0000_0000_0000u64 } else if n < 0 { (-n) as u64 } else { n as u64 } }
pub fn vuabs32(n: i32) -> (r: u32) ensures r == if n < 0 { -n } else { n as int } { if n == i32::MIN { 0x8000_0000u32 } else if n < 0 { (-n) as u32 } else { n as u32 } }
## native::num||Num|is_odd
ens: r == (nint(*self) % 2 == 1)
## native::num||Num|is_even
ens: r == (nint(*self) % 2 == 0)
## native::num|From<u64>|Num|from
ens: r == fint(n as int)
subst: repr . as_mut () [0] = n ; => let ghost z0 = repr.limbs(); proof { ax_pmod(); } repr . vset (0, n) ; proof { l_lval1(repr.limbs(), n); }
## native::num|From<u32>|Num|from
ens: r == fint(n as int)
subst: repr . as_mut () [0] = n as u64 ; => proof { ax_pmod(); } repr . vset (0, n as u64) ; proof { l_lval1(repr.limbs(), n as u64); }
## native::num|From<i64>|Num|from
ens: r == fint(n as int)
subst: repr . as_mut () [0] = n . unsigned_abs () ; => proof { ax_pmod(); l_fint_neg(n as int); } repr . vset (0, vuabs64(n)) ; proof { l_lval1(repr.limbs(), repr.limbs()[0]); }
## native::num|From<i32>|Num|from
ens: r == fint(n as int)
subst: repr . as_mut () [0] = n . unsigned_abs () as u64 ; => proof { ax_pmod(); l_fint_neg(n as int); } repr . vset (0, vuabs32(n) as u64) ; proof { l_lval1(repr.limbs(), repr.limbs()[0]); }
