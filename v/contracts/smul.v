@area smul
@include edw
%% raw
// TRUSTED facts about the parameters (evaluated by the checks of C23): the generator is a point of the subgroup other than the identity
pub axiom fn ax_gen() ensures insub(cg()), cg() != ezero();
// TRUSTED facts about the curve: its group law is associative; the subgroup order is a prime above 8; 8 times it annihilates every point
pub axiom fn ax_assoc(p: EdwardsPoint, q: EdwardsPoint, r: EdwardsPoint) requires oncurve(p), oncurve(q), oncurve(r) ensures eadd(eadd(p, q), r) == eadd(p, eadd(q, r));
pub uninterp spec fn order() -> int;
pub axiom fn ax_order() ensures order() > 8, order() % 2 == 1;
pub axiom fn ax_order_inv(k: int) requires 0 < k < order() ensures exists|m: int| 0 < m < order() && #[trigger] (k * m) % order() == 1;
pub axiom fn ax_cofactor(p: EdwardsPoint) requires oncurve(p) ensures smul((order() * 8) as nat, p) == ezero();
pub open spec fn smul(n: nat, p: EdwardsPoint) -> EdwardsPoint decreases n { if n == 0 { ezero() } else { eadd(smul((n - 1) as nat, p), p) } }
/// the subgroup: the points of the curve annihilated by the order
pub open spec fn insub(p: EdwardsPoint) -> bool { oncurve(p) && smul(order() as nat, p) == ezero() }
pub proof fn l_smul_on(n: nat, p: EdwardsPoint) requires oncurve(p) ensures oncurve(smul(n, p)) decreases n { l_eadd0(p); if n > 0 { l_smul_on((n - 1) as nat, p); l_closed(smul((n - 1) as nat, p), p); } }
pub proof fn l_smul_add(a: nat, b: nat, p: EdwardsPoint) requires oncurve(p) ensures smul(a + b, p) == eadd(smul(a, p), smul(b, p)) decreases b
{ l_smul_on(a, p); l_smul_on(b, p); l_eadd0(smul(a, p)); if b > 0 { l_smul_add(a, (b - 1) as nat, p); l_smul_on((b - 1) as nat, p); ax_assoc(smul(a, p), smul((b - 1) as nat, p), p); assert((a + b - 1) as nat == a + (b - 1) as nat); } }
pub proof fn l_smul_1(p: EdwardsPoint) requires oncurve(p) ensures smul(0, p) == ezero(), smul(1, p) == p, smul(2, p) == eadd(p, p), smul(8, p) == e8(p)
{ l_eadd0(p); l_eadd_comm(p, ezero()); reveal_with_fuel(smul, 3); l_smul_add(1, 1, p); l_smul_add(2, 2, p); l_smul_add(4, 4, p); }
pub proof fn l_smul_0(n: nat) ensures smul(n, ezero()) == ezero() decreases n { l_eadd0(ezero()); if n > 0 { l_smul_0((n - 1) as nat); } }
pub proof fn l_smul_mul(a: nat, b: nat, p: EdwardsPoint) requires oncurve(p) ensures smul(a * b, p) == smul(a, smul(b, p)) decreases a
{ l_smul_on(b, p); if a > 0 { l_smul_mul((a - 1) as nat, b, p); assert(a * b == (a - 1) * b + b) by (nonlinear_arith); assert((a - 1) * b >= 0) by (nonlinear_arith) requires a > 0; l_smul_add(((a - 1) * b) as nat, b, p); } else { assert(a * b == 0) by (nonlinear_arith) requires a == 0; } }
pub proof fn l_four(a: EdwardsPoint, b: EdwardsPoint, c: EdwardsPoint, d: EdwardsPoint) requires oncurve(a), oncurve(b), oncurve(c), oncurve(d) ensures eadd(eadd(a, b), eadd(c, d)) == eadd(eadd(a, c), eadd(b, d))
{ l_closed(c, d); l_closed(b, d); ax_assoc(a, b, eadd(c, d)); ax_assoc(b, c, d); ax_assoc(c, b, d); l_eadd_comm(b, c); ax_assoc(a, c, eadd(b, d)); l_closed(b, c); }
pub proof fn l_smul_eadd(n: nat, p: EdwardsPoint, q: EdwardsPoint) requires oncurve(p), oncurve(q) ensures smul(n, eadd(p, q)) == eadd(smul(n, p), smul(n, q)) decreases n
{ l_eadd0(ezero()); l_closed(p, q); if n > 0 { let m = (n - 1) as nat; l_smul_eadd(m, p, q); l_smul_on(m, p); l_smul_on(m, q); l_four(smul(m, p), smul(m, q), p, q); } }
pub proof fn l_negadd(p: EdwardsPoint, q: EdwardsPoint) ensures eneg(eadd(p, q)) == eadd(eneg(p), eneg(q))
{ broadcast use fieldax; let d = cd(); let a = p.x; let b = q.x; RING!{ d * (-a) * (-b) * p.y * q.y == d * a * b * p.y * q.y } RING!{ p.y*q.y + (-a)*(-b) == p.y*q.y + a*b } RING!{ (-a)*q.y + p.y*(-b) == -(a*q.y + p.y*b) } l_neg_mul(F!{ a*q.y + p.y*b }, finv(F!{ 1 + `ee(p, q)` })); }
pub proof fn l_smul_neg(n: nat, p: EdwardsPoint) ensures smul(n, eneg(p)) == eneg(smul(n, p)) decreases n { l_neg0(); if n > 0 { l_smul_neg((n - 1) as nat, p); l_negadd(smul((n - 1) as nat, p), p); } }
pub proof fn l_m1(p: EdwardsPoint) ensures oncurve(m1()), eadd(m1(), m1()) == ezero(), eadd(p, m1()) == (EdwardsPoint { x: fneg(p.x), y: fneg(p.y) }), m1() != ezero(), eneg(m1()) == m1()
{ broadcast use fieldax; let d = cd(); let x = p.x; let y = p.y; let o = fneg(f1()); RING!{ d * x * 0 * y * o == 0 } RING!{ x * (-1) + y * 0 == -x } RING!{ y * (-1) + x * 0 == -y } RING!{ 1 + 0 == 1 } RING!{ 1 - 0 == 1 } l_div1(fneg(x)); l_div1(fneg(y)); RING!{ (-1)*(-1) - 0*0 == 1 + d*(0*0)*((-1)*(-1)) }
  l_neg0(); RING!{ d * 0 * 0 * (-1) * (-1) == 0 } RING!{ 0 * (-1) + (-1) * 0 == 0 } RING!{ (-1) * (-1) + 0 * 0 == 1 } l_div1(f0()); l_div1(f1()); l_char2(); l_fint01(); if o == f1() { RING!{ 2 == 1 + 1 } RING!{ 1 + (-1) == 0 } } }
pub proof fn l_smul_m1(n: nat) ensures smul(n, m1()) == if n % 2 == 1 { m1() } else { ezero() } decreases n
{ l_m1(m1()); l_eadd0(m1()); l_eadd_comm(m1(), ezero()); if n > 0 { l_smul_m1((n - 1) as nat); } }
/// x with equal y: the point or its negative
pub proof fn l_samex(p: EdwardsPoint, q: EdwardsPoint) requires oncurve(p), oncurve(q), p.x == q.x ensures p.y == q.y || p.y == fneg(q.y)
{ broadcast use fieldax; let d = cd(); let x = p.x; let y = p.y; let z = q.y; RING!{ (y - z)*(y + z)*(1 - d*(x*x)) == 0 | y*y - x*x == 1 + d*(x*x)*(y*y) with 1 | z*z - x*x == 1 + d*(x*x)*(z*z) with -1 } l_dx2(x); if F!{ y - z } != f0() { RING!{ y == -z | y + z == 0 with 1 } } }
pub proof fn l_samey(p: EdwardsPoint, q: EdwardsPoint) requires oncurve(p), oncurve(q), p.y == q.y ensures p == q || p == eneg(q)
{ broadcast use fieldax; let d = cd(); let y = p.y; let x = p.x; let z = q.x; RING!{ (x - z)*(x + z)*(1 + d*(y*y)) == 0 | y*y - x*x == 1 + d*(x*x)*(y*y) with -1 | y*y - z*z == 1 + d*(z*z)*(y*y) with 1 } l_dy2(y); if F!{ x - z } != f0() { RING!{ x == -z | x + z == 0 with 1 } } }
pub proof fn l_dx2(x: Num) ensures F!{ 1 - `cd()`*(x*x) } != f0() { broadcast use fieldax; let d = cd(); if F!{ 1 - d*(x*x) } == f0() { RING!{ d*(x*x) == 1 | 1 - d*(x*x) == 0 with -1 } if x == f0() { RING!{ d*(0*0) == 0 } } let i = finv(x); assert(fmul(x, i) == f1()); RING!{ i*i == d | 1 - d*(x*x) == 0 with i*i | x*i == 1 with d*(x*i + 1) } ax_d(i); } }
pub proof fn l_dy2(y: Num) ensures F!{ 1 + `cd()`*(y*y) } != f0() { broadcast use fieldax; let d = cd(); let s = si(); ax_si(); let z = fmul(s, y); RING!{ 1 - d*(s*y*(s*y)) == 1 + d*(y*y) | s*s == -1 with -(d*y*y) } l_dx2(z); }
/// (x, y) and (x, -y): their multiples by an odd number
pub proof fn l_flip(n: nat, p: EdwardsPoint) requires oncurve(p), n % 2 == 1 ensures ({ let q = EdwardsPoint { x: p.x, y: fneg(p.y) }; oncurve(q) && q == eadd(eneg(p), m1()) && smul(n, q) == eadd(eneg(smul(n, p)), m1()) })
{ broadcast use fieldax; l_eneg(p); l_m1(eneg(p)); let q = EdwardsPoint { x: p.x, y: fneg(p.y) }; assert(eadd(eneg(p), m1()) == q); l_closed(eneg(p), m1()); l_smul_eadd(n, eneg(p), m1()); l_smul_neg(n, p); l_smul_m1(n); }
pub proof fn l_decomp(x: Num, y: Num) ensures (fmul(y, y) == fdiv(F!{ x*x + 1 }, F!{ 1 - `cd()`*(x*x) })) == onc(x, y)
{ broadcast use fieldax; l_dx2(x); let d = cd(); let q = fdiv(F!{ x*x + 1 }, F!{ 1 - d*(x*x) }); let u = F!{ 1 - d*(x*x) }; assert(fmul(q, u) == F!{ x*x + 1 });
  if fmul(y, y) == q { RING!{ y*y - x*x == 1 + d*(x*x)*(y*y) | q*(1 - d*(x*x)) == x*x + 1 with 1 | y*y == q with 1 - d*(x*x) } }
  if onc(x, y) { RING!{ y*y*(1 - d*(x*x)) == x*x + 1 | y*y - x*x == 1 + d*(x*x)*(y*y) with 1 } l_divunique(fmul(y, y), F!{ x*x + 1 }, u); } }
pub proof fn l_fory(x: Num, y: Num) ensures (fmul(x, x) == fdiv(F!{ y*y - 1 }, F!{ `cd()`*(y*y) + 1 })) == onc(x, y), F!{ `cd()`*(y*y) + 1 } != f0()
{ broadcast use fieldax; l_dy2(y); let d = cd(); RING!{ d*(y*y) + 1 == 1 + d*(y*y) } let u = F!{ d*(y*y) + 1 }; let q = fdiv(F!{ y*y - 1 }, u); assert(fmul(q, u) == F!{ y*y - 1 });
  if fmul(x, x) == q { RING!{ y*y - x*x == 1 + d*(x*x)*(y*y) | q*(d*(y*y) + 1) == y*y - 1 with -1 | x*x == q with -(d*(y*y) + 1) } }
  if onc(x, y) { RING!{ x*x*(d*(y*y) + 1) == y*y - 1 | y*y - x*x == 1 + d*(x*x)*(y*y) with -1 } l_divunique(fmul(x, x), F!{ y*y - 1 }, u); } }
pub open spec fn bebits(b: Seq<bool>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { 2 * bebits(b.drop_last()) + if b.last() { 1nat } else { 0 } } }
pub proof fn l_bestep(b: Seq<bool>, i: int) requires 0 <= i < b.len() ensures bebits(b.take(i + 1)) == 2 * bebits(b.take(i)) + if b[i] { 1nat } else { 0 }, b.take(0).len() == 0, b.take(b.len() as int) == b { assert(b.take(i + 1).drop_last() =~= b.take(i)); assert(b.take(b.len() as int) =~= b); }
// TRUSTED: the scalar field (of the subgroup order) and the bit iterator of its dependency
pub type S = Repr;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NumS { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TS { x: u64 }
pub uninterp spec fn sint(s: NumS) -> int;
pub axiom fn ax_sint(s: NumS) ensures 0 <= sint(s) < order();
impl TS { pub uninterp spec fn num(&self) -> NumS; #[verifier::external_body] pub fn into_repr(&self) -> (r: Repr) ensures r.rint() == sint(self.num()) { unimplemented!() } }
impl NumS {
  #[verifier::external_body] pub fn into_inner(&self) -> (r: TS) ensures r.num() == *self { unimplemented!() }
  #[verifier::external_body] pub fn from(n: i32) -> (r: NumS) ensures 0 <= n < order() ==> sint(r) == n { unimplemented!() }
  #[verifier::external_body] pub fn inverse(&self) -> (r: NumS) requires honest() ==> sint(*self) != 0 ensures sint(*self) != 0, (sint(*self) * sint(r)) % order() == 1 { unimplemented!() }
}
#[verifier::external_body]
pub fn fs_char() -> (r: Repr) ensures r.rint() == order() { unimplemented!() }
pub struct BitIterator { pub r: Repr }
pub struct VBits { pub v: Vec<bool> }
impl BitIterator { pub fn new(r: Repr) -> (b: BitIterator) ensures b.r == r { BitIterator { r } }
  #[verifier::external_body] pub fn vcollect(self) -> (b: VBits) ensures bebits(b.v@) == self.r.rint() { unimplemented!() } }
impl VBits { pub fn vlen(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() } pub fn vget(&self, i: usize) -> (r: &bool) requires i < self.v@.len() ensures *r == self.v@[i as int] { &self.v[i] } }
/// multiples depend on the scalar modulo the order only, in the subgroup
pub proof fn l_smul_mod(n: nat, p: EdwardsPoint) requires insub(p) ensures smul(n, p) == smul((n % (order() as nat)) as nat, p), order() > 0
{ ax_order(); let o = order() as nat; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, o as int); let q = n / o; assert(o * q == q * o) by (nonlinear_arith); l_smul_mul(q, o, p); l_smul_0(q); l_smul_add(q * o, n % o, p); l_smul_on(n % o, p); l_eadd0(smul(n % o, p)); l_eadd_comm(ezero(), smul(n % o, p)); }
pub proof fn l_insub_smul(n: nat, p: EdwardsPoint) requires insub(p) ensures insub(smul(n, p)) { ax_order(); l_smul_on(n, p); let o = order() as nat; l_smul_mul(n, o, p); l_smul_mul(o, n, p); assert(n * o == o * n) by (nonlinear_arith); l_smul_0(n); }
pub proof fn l_insub_add(p: EdwardsPoint, q: EdwardsPoint) requires insub(p), insub(q) ensures insub(eadd(p, q)) { ax_order(); l_closed(p, q); l_smul_eadd(order() as nat, p, q); l_eadd0(ezero()); }
pub proof fn l_insub_neg(p: EdwardsPoint) requires insub(p) ensures insub(eneg(p)) { l_eneg(p); l_smul_neg(order() as nat, p); l_neg0(); }
/// in the subgroup, no multiple by 1..order-1 of a point other than the identity is the identity
pub proof fn l_nonzero(k: nat, p: EdwardsPoint) requires insub(p), p != ezero(), 0 < k < order() ensures smul(k, p) != ezero()
{ if smul(k, p) == ezero() { ax_order_inv(k as int); let m = choose|m: int| 0 < m < order() && #[trigger] (k * m) % order() == 1; assert(m * k == k * m) by (nonlinear_arith); assert(k * m >= 0) by (nonlinear_arith) requires k > 0, m > 0; l_smul_mul(m as nat, k, p); l_smul_0(m as nat); l_smul_mod((k * m) as nat, p); l_smul_1(p); } }
pub proof fn l_insub_m1() ensures !insub(m1()), insub(ezero()) { ax_order(); l_m1(m1()); l_smul_m1(order() as nat); l_smul_0(order() as nat); l_eadd0(ezero()); }
pub proof fn l_insub_e8(p: EdwardsPoint) requires oncurve(p) ensures insub(e8(p)) { ax_order(); ax_cofactor(p); l_smul_1(p); l_smul_on(8, p); l_smul_mul(order() as nat, 8, p); }
pub proof fn l_order2(p: EdwardsPoint) requires insub(p), p.x == f0() ensures p == ezero() { l_pm1(p); l_insub_m1(); }
/// the subgroup has at most one point with a given x
pub proof fn l_subx(p: EdwardsPoint, q: EdwardsPoint) requires insub(p), insub(q), p.x == q.x ensures p == q
{ l_samex(q, p); if q.y == fneg(p.y) { ax_order(); l_flip(order() as nat, p); l_neg0(); l_m1(eneg(ezero())); l_m1(ezero()); l_insub_m1(); l_eneg(ezero()); assert(eneg(ezero()) == ezero()); assert(q == (EdwardsPoint { x: p.x, y: fneg(p.y) })); l_eadd_comm(ezero(), m1()); l_eadd0(m1()); } }
pub open spec fn pxy(x: Num, y: Num) -> EdwardsPoint { EdwardsPoint { x, y } }
pub proof fn l_dec1(x: Num, y: Num) requires onc(x, y) ensures ({ let l = smul(order() as nat, pxy(x, y)); (l == ezero() ==> insub(pxy(x, y))) && (l.x == f0() && l != ezero() ==> insub(pxy(x, fneg(y)))) && (l.x != f0() ==> forall|p: EdwardsPoint| p.x == x ==> !insub(p)) })
{ broadcast use fieldax; ax_order(); let p = pxy(x, y); let o = order() as nat; let l = smul(o, p); l_smul_on(o, p); l_flip(o, p); l_pm1(l); l_m1(m1()); l_neg0();
  if l.x == f0() && l != ezero() { assert(l == m1()); }
  if l.x != f0() { assert forall|q: EdwardsPoint| q.x == x implies !insub(q) by { if insub(q) { l_samex(q, p); if q.y == fneg(y) { assert(q == pxy(x, fneg(y))); l_eneg(l); l_m1(eneg(l)); if eadd(eneg(l), m1()) == ezero() { assert(fneg(fneg(l.x)) == f0()); } } else { assert(q == p); } } } } }
pub proof fn l_dec_all(x: Num) ensures F!{ 1 - `cd()`*(x*x) } != f0(), forall|y: Num| (#[trigger] fmul(y, y) == fdiv(F!{ x*x + 1 }, F!{ 1 - `cd()`*(x*x) })) == onc(x, y),
  forall|y: Num| #[trigger] onc(x, y) ==> ({ let l = smul(order() as nat, pxy(x, y)); (l == ezero() ==> insub(pxy(x, y))) && (l.x == f0() && l != ezero() ==> insub(pxy(x, fneg(y)))) && (l.x != f0() ==> forall|p: EdwardsPoint| p.x == x ==> !insub(p)) })
{ l_dx2(x); assert forall|y: Num| (#[trigger] fmul(y, y) == fdiv(F!{ x*x + 1 }, F!{ 1 - `cd()`*(x*x) })) == onc(x, y) by { l_decomp(x, y); }
  assert forall|y: Num| #[trigger] onc(x, y) implies ({ let l = smul(order() as nat, pxy(x, y)); (l == ezero() ==> insub(pxy(x, y))) && (l.x == f0() && l != ezero() ==> insub(pxy(x, fneg(y)))) && (l.x != f0() ==> forall|p: EdwardsPoint| p.x == x ==> !insub(p)) }) by { l_dec1(x, y); } }
pub proof fn l_fory_all(y: Num) ensures F!{ `cd()`*(y*y) + 1 } != f0(), forall|x: Num| (#[trigger] fmul(x, x) == fdiv(F!{ y*y - 1 }, F!{ `cd()`*(y*y) + 1 })) == onc(x, y),
  forall|x: Num| #[trigger] onc(x, y) ==> onc(fneg(x), y) && (x != f0() ==> fneg(x) != f0() && (nint(fneg(x)) % 2 == 1) != (nint(x) % 2 == 1))
{ l_fory(f0(), y); assert forall|x: Num| (#[trigger] fmul(x, x) == fdiv(F!{ y*y - 1 }, F!{ `cd()`*(y*y) + 1 })) == onc(x, y) by { l_fory(x, y); }
  assert forall|x: Num| #[trigger] onc(x, y) implies onc(fneg(x), y) && (x != f0() ==> fneg(x) != f0() && (nint(fneg(x)) % 2 == 1) != (nint(x) % 2 == 1)) by { broadcast use fieldax; l_eneg(pxy(x, y)); l_neg0(); if x != f0() { l_parity(x); assert(fneg(fneg(x)) == x); } } }
## native::ecc||EdwardsPointEx|mul_raw
ens: exok(*self) ==> exok(r) && aff(r) == smul(scalar.rint() as nat, aff(*self))
loops: iter
pre0: proof { l_eadd0(aff(*self)); }
inv0: invariant __n0 == __s1.v@.len(), __i0 <= __n0, bebits(__s1.v@) == scalar.rint(), exok(*self) ==> exok(res) && aff(res) == smul(bebits(__s1.v@.take(__i0 as int)), aff(*self)) decreases __n0 - __i0
ent0: proof { if exok(*self) { l_bestep(__s1.v@, __i0 as int); let k = bebits(__s1.v@.take(__i0 as int)); l_smul_add(k, k, aff(*self)); l_smul_add(2 * k, 1, aff(*self)); l_smul_1(aff(*self)); } }
post0: proof { assert(__s1.v@.take(__n0 as int) =~= __s1.v@); }
## native::ecc||EdwardsPointEx|mul
ens: exok(*self) ==> exok(r) && aff(r) == smul(sint(scalar) as nat, aff(*self))
## native::ecc||EdwardsPoint|mul
req: honest() ==> oncurve(*self)
ens: oncurve(*self) ==> oncurve(r) && r == smul(sint(scalar) as nat, *self)
## native::ecc||EdwardsPointEx|is_in_subgroup
req: exwf(*self), oncurve(aff(*self))
ens: r == insub(aff(*self))
## native::ecc||EdwardsPoint|subgroup_decompress
ens: r.is_some() ==> r.unwrap().x == x && insub(r.unwrap()), r.is_none() ==> forall|p: EdwardsPoint| p.x == x ==> !insub(p)
begin: l_dec_all(x); l_neg0(); assert forall|p: EdwardsPoint| insub(p) implies #[trigger] onc(p.x, p.y) by { }
## native::ecc||EdwardsPoint|get_for_y
ens: r.is_some() ==> r.unwrap().y == y && oncurve(r.unwrap()) && (r.unwrap().x != f0() ==> (nint(r.unwrap().x) % 2 == 1) == sign), r.is_none() ==> forall|p: EdwardsPoint| p.y == y ==> !oncurve(p)
begin: l_fory_all(y); l_neg0();
