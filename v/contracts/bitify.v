@area bitify
@include num bits bitit ring stdx
%% raw
pub open spec fn nbv(x: int, n: nat) -> Seq<Num> { Seq::new(n, |i: int| fb(ibit(x, i))) }
pub proof fn l_bitfb(b: bool) ensures bitn(fb(b)) == (if b { 1int } else { 0 }), isbit(fb(b)) { broadcast use fieldax; }
/// bits agreeing with those of x: their integer is x modulo the power
pub proof fn l_lebits(x: int, s: Seq<Num>) requires 0 <= x, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == fb(ibit(x, i)) ensures lesum(s) == x % (pow2(s.len()) as int), allbits(s) decreases s.len()
{ broadcast use fieldax; if s.len() > 0 { let n = (s.len() - 1) as nat; let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == fb(ibit(x, i)) by { assert(t[i] == s[i]); } l_lebits(x, t); l_modstep(x, n); assert(s[n as int] == fb(ibit(x, n as int))); l_bitfb(ibit(x, n as int)); let p = pow2(n); assert(1 * p == p); assert(0 * p == 0); } else { lemma2_to64(); } }
pub proof fn l_setbit(s: Seq<Num>, i: int, b: Num) requires 0 <= i < s.len(), s[i] == f0() ensures lesum(s.update(i, b)) == lesum(s) + bitn(b) * pow2(i as nat) decreases s.len()
{ broadcast use fieldax; let u = s.update(i, b); let p = pow2(i as nat); assert(0 * p == 0); assert(bitn(b) * p >= 0) by (nonlinear_arith) requires bitn(b) >= 0; if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); } else { l_setbit(s.drop_last(), i, b); assert(u.drop_last() =~= s.drop_last().update(i, b)); } }
pub proof fn l_subsub(a: Num, b: Num, c: Num) ensures fsub(fsub(a, b), c) == fsub(a, fadd(b, c)) { RING!{ a - b - c == a - (b + c) } }
pub proof fn l_bitsev<'a>(c: CBool<'a>, b: bool) requires c.evs() == CBool::<'a>::vnums(b) ensures c.ev() == fb(b), isbit(fb(b)) { broadcast use fieldax; assert(sq1(c.ev())[0] == c.ev()); assert(sq1(fb(b))[0] == fb(b)); }
pub proof fn l_evs1<'a>(c: &CNum<'a>) ensures forall|v: Num| #![trigger CNum::<'a>::vnums(v)] (c.evs() == CNum::<'a>::vnums(v)) == (c.ev() == v) { broadcast use fieldax; assert forall|v: Num| #![trigger CNum::<'a>::vnums(v)] (c.evs() == CNum::<'a>::vnums(v)) == (c.ev() == v) by { assert(sq1(c.ev())[0] == c.ev()); assert(sq1(v)[0] == v); } }
pub proof fn l_allzero(s: Seq<Num>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == f0() ensures lesum(s) == 0, allbits(s) { broadcast use fieldax; l_lezeros(Seq::empty(), s); assert(Seq::<Num>::empty() + s =~= s); }
pub proof fn l_zero0<'a>(b: Seq<CBool<'a>>) requires b.len() >= 1, forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).evs() == CBool::<'a>::vnums(false) ensures lesum(bev(b)) == 0, allbits(bev(b)), bev(b).len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] bev(b)[i] == f0()
{ assert forall|i: int| 0 <= i < b.len() implies #[trigger] bev(b)[i] == f0() by { l_bitsev(b[i], false); } l_allzero(bev(b)); }
pub proof fn l_fin2<'a>(bits: Seq<CBool<'a>>, v: Num, rem: Num, limit: nat)
  requires bits.len() == limit, 1 <= limit <= nbits(), bwf(bits), allbits(bev(bits)), bev(bits)[0] == f0(), rem == fsub(v, fint(lesum(bev(bits)) as int)), honest() ==> nint(v) < pow2(limit), honest() ==> forall|j: int| 1 <= j < limit ==> #[trigger] bev(bits)[j] == fb(ibit(nint(v), j))
  ensures honest() ==> isbit(rem), forall|b: CBool<'a>| b.ev() == rem && isbit(rem) && b.wf() ==> ({ let t = #[trigger] bits.update(0, b); t.len() == limit && bwf(t) && allbits(bev(t)) && v == fint(lesum(bev(t)) as int) && (honest() ==> lesum(bev(t)) == nint(v)) && (limit < nbits() ==> lesum(bev(t)) == nint(v)) })
{ broadcast use fieldax; let z = bev(bits); l_fint01(); lemma2_to64(); ax_nint(v); let x = nint(v); let r0 = fb(ibit(x, 0)); let nb = nbv(x, limit); l_bitfb(ibit(x, 0));
  if honest() { assert(nb =~= z.update(0, r0)) by { assert forall|j: int| 1 <= j < limit implies nb[j] == z[j] by { assert(z[j] == fb(ibit(x, j))); } } l_lebits(x, nb); lemma_small_mod(x as nat, pow2(limit)); l_setbit(z, 0, r0); assert(bitn(r0) * 1 == bitn(r0)); l_fint_add(lesum(z) as int, bitn(r0)); let q = fint(lesum(z) as int); RING!{ r0 == (r0 + q) - q } RING!{ (r0 + q) - q == (q + r0) - q } l_wbit(r0, 0); assert(rem == r0); }
  assert forall|b: CBool<'a>| b.ev() == rem && isbit(rem) && b.wf() implies ({ let t = #[trigger] bits.update(0, b); t.len() == limit && bwf(t) && allbits(bev(t)) && v == fint(lesum(bev(t)) as int) && (honest() ==> lesum(bev(t)) == nint(v)) && (limit < nbits() ==> lesum(bev(t)) == nint(v)) }) by {
    l_bevu(bits, 0, b); let t = bits.update(0, b); l_setbit(z, 0, rem); assert(bitn(rem) * 1 == bitn(rem)); l_fint_add(lesum(z) as int, bitn(rem)); l_wbit(rem, 0); let q = fint(lesum(z) as int); RING!{ v == q + (v - q) } 
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).wf() by { if i > 0 { assert(t[i] == bits[i]); } } assert forall|i: int| 0 <= i < bev(t).len() implies isbit(#[trigger] bev(t)[i]) by { if i > 0 { assert(bev(t)[i] == z[i]); } }
    l_lebound(bev(t)); if limit < nbits() { l_short(limit); l_exact(v, bev(t)); } } }
/// the field value of a bit weighted by a power of two
pub proof fn l_wbit(b: Num, i: nat) requires isbit(b) ensures fmul(b, fint(pow2(i) as int)) == fint(bitn(b) * pow2(i)), fmul(fint(pow2(i) as int), b) == fint(bitn(b) * pow2(i)), b == fint(bitn(b))
{ broadcast use fieldax; l_fint01(); let p = pow2(i) as int; assert(1 * p == p); assert(0 * p == 0); }
pub proof fn l_pdbl(i: nat) ensures fadd(fint(pow2(i) as int), fint(pow2(i) as int)) == fint(pow2(i + 1) as int), fint(pow2(0) as int) == f1(), pow2(0) == 1, pow2(i + 1) == 2 * pow2(i)
{ lemma_pow2_unfold(i + 1); l_fint_add(pow2(i) as int, pow2(i) as int); lemma2_to64(); l_fint01(); }
/// fewer bits than the modulus has: the integer is the value
pub proof fn l_exact(a: Num, s: Seq<Num>) requires a == fint(lesum(s) as int), lesum(s) < pmod() ensures nint(a) == lesum(s) { l_nint(lesum(s) as int); }
pub proof fn l_short(n: nat) requires n < nbits() ensures pow2(n) <= pmod() { ax_nbits(); if n < nbits() - 1 { lemma_pow2_strictly_increases(n, (nbits() - 1) as nat); } }
pub proof fn l_bevu<'a>(b: Seq<CBool<'a>>, i: int, x: CBool<'a>) requires 0 <= i < b.len() ensures bev(b.update(i, x)) == bev(b).update(i, x.ev()), bev(b).len() == b.len(), bev(b)[i] == b[i].ev() { assert(bev(b.update(i, x)) =~= bev(b).update(i, x.ev())); }
pub proof fn l_bevp<'a>(b: Seq<CBool<'a>>, x: CBool<'a>) ensures bev(b.push(x)) == bev(b).push(x.ev()), bev(b).len() == b.len() { assert(bev(b.push(x)) =~= bev(b).push(x.ev())); }
pub proof fn l_lepush(s: Seq<Num>, b: Num) ensures lesum(s.push(b)) == lesum(s) + bitn(b) * pow2(s.len()) { l_lestep(s.push(b), s.len() as int); assert(s.push(b).take(s.len() as int) =~= s); assert(s.push(b).take(s.len() as int + 1) =~= s.push(b)); }
/// the last bit of a number below 2^(n+1)
pub proof fn l_top(s: Seq<Num>, n: nat) requires s.len() == n + 1, allbits(s) ensures (s[n as int] == f1()) == (lesum(s) >= pow2(n)), isbit(s[n as int]) { broadcast use fieldax; l_lestep(s, n as int); l_lebound(s.take(n as int)); assert(s.take(n as int + 1) =~= s); let p = pow2(n); assert(1 * p == p); assert(0 * p == 0); assert(isbit(s[n as int])); }
/// comparison of two bits against two bits
pub open spec fn sgn(a: int, b: int) -> int { if a > b { 1 } else if a == b { 0 } else { -1 } }
pub open spec fn b2(l: bool, u: bool) -> int { (if l { 1int } else { 0 }) + (if u { 2int } else { 0 }) }
pub proof fn l_pair(l: Num, u: Num, cl: bool, cu: bool) requires isbit(l), isbit(u)
  ensures ({ let lu = fmul(l, u); let s = fint(sgn(bitn(l) + 2 * bitn(u), b2(cl, cu))); s == (if cl { if cu { F!{ lu - 1 } } else { F!{ l + u * 2 - lu - 1 } } } else { if cu { F!{ lu + u - 1 } } else { F!{ l + u - lu } } }) })
{ broadcast use fieldax; l_fint01(); l_fint_neg(1); l_fint_add(1, 1);
  if l == f0() && u == f0() { RING!{ 0*0 - 1 == -1 } RING!{ 0 + 0*2 - 0*0 - 1 == -1 } RING!{ 0*0 + 0 - 1 == -1 } RING!{ 0 + 0 - 0*0 == 0 } }
  if l == f1() && u == f0() { RING!{ 1*0 - 1 == -1 } RING!{ 1 + 0*2 - 1*0 - 1 == 0 } RING!{ 1*0 + 0 - 1 == -1 } RING!{ 1 + 0 - 1*0 == 1 } }
  if l == f0() && u == f1() { RING!{ 0*1 - 1 == -1 } RING!{ 0 + 1*2 - 0*1 - 1 == 1 } RING!{ 0*1 + 1 - 1 == 0 } RING!{ 0 + 1 - 0*1 == 1 } }
  if l == f1() && u == f1() { RING!{ 1*1 - 1 == 0 } RING!{ 1 + 1*2 - 1*1 - 1 == 1 } RING!{ 1*1 + 1 - 1 == 1 } RING!{ 1 + 1 - 1*1 == 1 } } }
/// the running comparison: its sign is that of the comparison of the low 2n bits
pub open spec fn cmpok(a: int, n: nat, s: int, c: int) -> bool { -(pow2(n) as int) < a < pow2(n) && (a > 0) == (s > c) && (a < 0) == (s < c) }
pub proof fn l_cmpstep(a: int, n: nat, s: Seq<Num>, c: int) requires 2 * n + 2 <= s.len(), cmpok(a, n, lesum(s.take(2 * n as int)) as int, c % (pow2(2 * n) as int)), allbits(s), c >= 0
  ensures ({ let e = sgn(bitn(s[2 * n as int]) + 2 * bitn(s[2 * n as int + 1]), b2(ibit(c, 2 * n as int), ibit(c, 2 * n as int + 1))); cmpok(a + pow2(n) * e, n + 1, lesum(s.take(2 * (n + 1) as int)) as int, c % (pow2(2 * (n + 1)) as int)) && fadd(fint(a), fmul(fint(pow2(n) as int), fint(e))) == fint(a + pow2(n) * e) })
{ broadcast use fieldax; let k = 2 * n; let p = pow2(k) as int; let l = bitn(s[k as int]); let u = bitn(s[k as int + 1]); let e = sgn(l + 2 * u, b2(ibit(c, k as int), ibit(c, k as int + 1)));
  l_lestep(s, k as int); l_lestep(s, k as int + 1); l_modstep(c, k); l_modstep(c, k + 1); lemma_pow2_unfold(k + 1); lemma_pow2_unfold(n + 1); lemma_pow2_pos(n); let s0 = lesum(s.take(k as int)) as int; let c0 = c % p; l_lebound(s.take(k as int)); lemma_mod_bound(c, p);
  let sv = l + 2 * u; let cv = b2(ibit(c, k as int), ibit(c, k as int + 1)); let s1 = lesum(s.take(k as int + 2)) as int; let c1 = c % (pow2(k + 2) as int);
  assert(l * p + u * (2 * p) == sv * p) by (nonlinear_arith) requires sv == l + 2 * u; assert(s1 == s0 + sv * p); assert(c1 == c0 + cv * p) by { let x = if ibit(c, k as int) { 1int } else { 0 }; let y = if ibit(c, k as int + 1) { 1int } else { 0 }; assert(x * p + y * (2 * p) == (x + 2 * y) * p) by (nonlinear_arith); assert(1 * p == p); assert(0 * p == 0); assert(0 * (2 * p) == 0); assert(1 * (2 * p) == 2 * p); }
  if sv > cv { assert(sv * p >= cv * p + p) by (nonlinear_arith) requires sv >= cv + 1, p > 0; } else if sv < cv { assert(cv * p >= sv * p + p) by (nonlinear_arith) requires cv >= sv + 1, p > 0; }
  let q = pow2(n) as int; assert(q * 1 == q); assert(q * 0 == 0); assert(q * -1 == -q); l_fint_mul(q, e); l_fint_add(a, q * e); assert(2 * (n + 1) == k + 2); }
pub proof fn l_lt(x: int, n: nat, m: nat) requires 0 <= x < pow2(m), n <= m, forall|i: int| n <= i < m ==> !ibit(x, i) ensures x < pow2(n), x % (pow2(n) as int) == x decreases m - n
{ if n < m { l_lt(x, n + 1, m); l_modstep(x, n); lemma_small_mod(x as nat, pow2(n + 1)); lemma_mod_bound(x, pow2(n) as int); lemma_pow2_pos(n); } else { lemma_small_mod(x as nat, pow2(n)); } }
pub proof fn l_ge(x: int, n: nat, i: int) requires 0 <= x, n <= i, ibit(x, i) ensures x >= pow2(n) { lemma_pow2_pos(i as nat); if x < pow2(i as nat) { lemma_small_mod(x as nat, pow2(i as nat)); lemma_basic_div(x, pow2(i as nat) as int); } if n < i { lemma_pow2_strictly_increases(n, i as nat); } }
pub proof fn l_nbound(a: Num) ensures 0 <= nint(a) < pow2(nbits()), nbits() <= 64 * nlimbs() { ax_nbits(); ax_nint(a); }
// rendering of slices and of a chain of two slice iterators
pub trait VSlice<A> { spec fn vss(&self) -> Seq<A>; fn vslice(&self) -> (r: &[A]) ensures r@ == self.vss(); }
impl<A> VSlice<A> for [A] { open spec fn vss(&self) -> Seq<A> { self@ } fn vslice(&self) -> (r: &[A]) { self } }
impl<A> VSlice<A> for Vec<A> { open spec fn vss(&self) -> Seq<A> { self@ } fn vslice(&self) -> (r: &[A]) { self.as_slice() } }
pub struct VChain<'b, A> { pub a: &'b [A], pub b: &'b [A], pub n: usize, pub m: usize }
pub fn viter_chain<'b, A>(a: &'b [A], b: &'b [A]) -> (r: VChain<'b, A>) ensures r.all() == a@ + b@, r.k() == 0, r.wf() { VChain { a, b, n: 0, m: 0 } }
impl<'b, A> VChain<'b, A> { pub open spec fn all(&self) -> Seq<A> { self.a@ + self.b@ } pub open spec fn k(&self) -> int { self.n + self.m } pub open spec fn wf(&self) -> bool { self.n <= self.a@.len() && self.m <= self.b@.len() && (self.m > 0 ==> self.n == self.a@.len()) }
  pub fn next(&mut self) -> (r: Option<&'b A>) requires old(self).wf() ensures final(self).wf(), final(self).all() == old(self).all(), old(self).k() < old(self).all().len() ==> r.is_some() && *r.unwrap() == old(self).all()[old(self).k()] && final(self).k() == old(self).k() + 1, old(self).k() >= old(self).all().len() ==> r.is_none()
  { if self.n < self.a.len() { let r = &self.a[self.n]; self.n = self.n + 1; Some(r) } else if self.m < self.b.len() { let r = &self.b[self.m]; self.m = self.m + 1; Some(r) } else { None } } }
pub proof fn l_half(n: usize) ensures n >> 1 == n / 2, n & 1 == n % 2 { assert(n >> 1 == n / 2) by (bit_vector); assert(n & 1 == n % 2) by (bit_vector); }
pub proof fn l_fb01() ensures fb(true) == f1(), fb(false) == f0(), f0() != f1() { broadcast use fieldax; }
pub proof fn l_even(s: Seq<Num>, n: nat) requires s.len() <= 2 * n ensures lesum(s) < pow2(2 * n) { l_lebound(s); if s.len() < 2 * n { lemma_pow2_strictly_increases(s.len(), 2 * n); } }
pub proof fn l_lim(x: int) requires x < pow2(nbits()) ensures x < pow2(64 * nlimbs()) { ax_nbits(); if nbits() < 64 * nlimbs() { lemma_pow2_strictly_increases(nbits(), 64 * nlimbs()); } }
pub proof fn l_padc<'a>(b: Seq<CBool<'a>>, z: Seq<CBool<'a>>, a: Seq<CBool<'a>>) requires a == b + z, forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]).ev() == f0() && z[i].wf(), bwf(b), allbits(bev(b)) ensures bwf(a), allbits(bev(a)), lesum(bev(a)) == lesum(bev(b)), bev(a).len() == a.len(), lesum(bev(a).take(0)) == 0, pow2(0) == 1
{ broadcast use fieldax; lemma2_to64(); assert(bev(a) =~= bev(b) + bev(z)); assert forall|i: int| 0 <= i < bev(z).len() implies #[trigger] bev(z)[i] == f0() by { assert(z[i].ev() == f0()); } l_lezeros(bev(b), bev(z)); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).wf() by { if i >= b.len() { assert(a[i] == z[i - b.len()]); } } 
  assert forall|i: int| 0 <= i < bev(a).len() implies isbit(#[trigger] bev(a)[i]) by { if i < b.len() { assert(bev(a)[i] == bev(b)[i]); } else { assert(a[i] == z[i - b.len()]); } } }
pub proof fn l_cmpfin(v: Num, a: int, n: nat) requires v == fint(a), -(pow2(n) as int) < a < pow2(n), n + 1 < nbits() ensures ({ let w = fadd(v, fsub(fint(pow2(n) as int), f1())); nint(w) == a + pow2(n) - 1 && nint(w) < pow2(n + 1) && w == fint(a + pow2(n) - 1) })
{ l_short(n + 1); lemma_pow2_unfold(n + 1); l_fint01(); l_fint_sub(pow2(n) as int, 1); l_fint_add(a, pow2(n) - 1); l_nint(a + pow2(n) - 1); }
pub open spec fn accok(v: Num, n: nat, s: Seq<Num>, c: int) -> bool { exists|a: int| v == fint(a) && #[trigger] cmpok(a, n, lesum(s.take((2 * n) as int)) as int, c % (pow2(2 * n) as int)) }
pub proof fn l_acc0(v: Num, s: Seq<Num>, c: int) requires v == f0(), c >= 0 ensures accok(v, 0, s, c) { lemma2_to64(); l_fint01(); assert(c % 1 == 0); assert(s.take(0).len() == 0); assert(cmpok(0, 0, lesum(s.take((2 * 0nat) as int)) as int, c % (pow2(2 * 0nat) as int))); }
pub open spec fn pairterm(l: Num, u: Num, cl: bool, cu: bool) -> Num { let lu = fmul(l, u); if cl { if cu { F!{ lu - 1 } } else { F!{ l + u * 2 - lu - 1 } } } else { if cu { F!{ lu + u - 1 } } else { F!{ l + u - lu } } } }
pub proof fn l_accstep(v: Num, n: nat, s: Seq<Num>, c: int) requires accok(v, n, s, c), 2 * n + 2 <= s.len(), allbits(s), c >= 0 ensures accok(fadd(v, fmul(fint(pow2(n) as int), pairterm(s[(2 * n) as int], s[(2 * n + 1) as int], ibit(c, (2 * n) as int), ibit(c, (2 * n + 1) as int)))), n + 1, s, c)
{ let a = choose|a: int| v == fint(a) && #[trigger] cmpok(a, n, lesum(s.take((2 * n) as int)) as int, c % (pow2(2 * n) as int)); assert(isbit(s[(2 * n) as int])); assert(isbit(s[(2 * n + 1) as int])); l_pair(s[(2 * n) as int], s[(2 * n + 1) as int], ibit(c, (2 * n) as int), ibit(c, (2 * n + 1) as int)); l_cmpstep(a, n, s, c);
  let e = sgn(bitn(s[(2 * n) as int]) + 2 * bitn(s[(2 * n + 1) as int]), b2(ibit(c, (2 * n) as int), ibit(c, (2 * n + 1) as int))); assert(cmpok(a + pow2(n) * e, n + 1, lesum(s.take((2 * (n + 1)) as int)) as int, c % (pow2(2 * (n + 1)) as int))); }
pub proof fn l_accfin(v: Num, n: nat, s: Seq<Num>, c: int) requires accok(v, n, s, c), s.len() == 2 * n, n + 1 < nbits() ensures ({ let w = fadd(v, fsub(fint(pow2(n) as int), f1())); nint(w) < pow2(n + 1) && (nint(w) >= pow2(n)) == (lesum(s) > c % (pow2(2 * n) as int)) })
{ let a = choose|a: int| v == fint(a) && #[trigger] cmpok(a, n, lesum(s.take((2 * n) as int)) as int, c % (pow2(2 * n) as int)); assert(s.take((2 * n) as int) =~= s); l_cmpfin(v, a, n); }
## circuit::bitify|||c_from_bits_le
req: bwf(bits@), allbits(bev(bits@)), honest() ==> bits@.len() > 0
ens: r.wf(), r.ev() == fint(lesum(bev(bits@)) as int)
loops: range
pre0: proof { l_pdbl(0); l_lestep(bev(bits@), 0); l_wbit(bev(bits@)[0], 0); assert(lesum(bev(bits@).take(0)) == 0); assert(bitn(bev(bits@)[0]) * 1 == bitn(bev(bits@)[0])); }
inv0: invariant bwf(bits@), allbits(bev(bits@)), bits@.len() > 0, 1 <= i, acc.wf(), k == fint(pow2((i - 1) as nat) as int), acc.ev() == fint(lesum(bev(bits@).take(i as int)) as int)
ent0: proof { l_pdbl((i - 1) as nat); l_lestep(bev(bits@), i as int); assert(isbit(bev(bits@)[i as int])); l_wbit(bev(bits@)[i as int], i as nat); l_fint_add(lesum(bev(bits@).take(i as int)) as int, bitn(bev(bits@)[i as int]) * pow2(i as nat)); assert(bits@[i as int].ev() == bev(bits@)[i as int]); }
post0: proof { assert(bev(bits@).take(bits@.len() as int) =~= bev(bits@)); }
## circuit::bitify|||c_into_bits_le
req: signal.wf(), 1 <= limit <= nbits(), honest() ==> nint(signal.ev()) < pow2(limit as nat)
ens: r@.len() == limit, bwf(r@), allbits(bev(r@)), signal.ev() == fint(lesum(bev(r@)) as int), honest() ==> lesum(bev(r@)) == nint(signal.ev()), limit < nbits() ==> lesum(bev(r@)) == nint(signal.ev())
loops: range iter range
begin: l_evs1(signal); ax_nbits(); l_short((limit - 1) as nat); if limit < nbits() { l_short(limit as nat); }
pre0: proof { l_pdbl(0); }
inv0: invariant value == signal.ev(), limit <= nbits(), nbits() <= 64 * nlimbs(), value_bits@.len() == 64 * nlimbs(), forall|j: int| 0 <= j < value_bits@.len() ==> #[trigger] value_bits@[j] == ibit(nint(value), j), bits@.len() == i, bwf(bits@), k == fint(pow2(i as nat) as int), remained_value == fsub(value, fint(lesum(bev(bits@)) as int)), forall|j: int| 0 <= j < i ==> #[trigger] bev(bits@)[j] == fb(ibit(nint(value), j))
ent0: let ghost b0 = bits@; proof { l_pdbl(i as nat); }
end0: proof { l_bevp(b0, bits@[i as int]); l_bitfb(ibit(nint(value), i as int)); l_bitsev(bits@[i as int], bit); l_lepush(bev(b0), fb(bit)); l_wbit(fb(bit), i as nat); l_fint_add(lesum(bev(b0)) as int, bitn(fb(bit)) * pow2(i as nat)); l_subsub(value, fint(lesum(bev(b0)) as int), fint(bitn(fb(bit)) * pow2(i as nat))); }
post0: proof { ax_nint(value); l_lebits(nint(value), bev(bits@)); if nint(value) < pow2(limit as nat) { lemma_small_mod(nint(value) as nat, pow2(limit as nat)); } l_lebound(bev(bits@)); if remained_value == f0() { if limit < nbits() { l_exact(value, bev(bits@)); } } }
inv1: invariant __i1 <= __n1, __n1 == __s1@.len(), __o1@.len() == __i1, forall|j: int| 0 <= j < __i1 ==> #[trigger] __o1@[j] == Some(__s1@[j]) decreases __n1 - __i1
pre2: proof { l_pdbl(0); l_zero0(bits@); ax_nint(signal.ev()); }
inv2: invariant 1 <= i, limit <= nbits(), nbits() <= 64 * nlimbs(), signal.wf(), remained_signal.wf(), value_bits@.len() >= nbits(), honest() ==> forall|j: int| 0 <= j < nbits() ==> #[trigger] value_bits@[j] == Some(ibit(nint(signal.ev()), j)), bits@.len() == limit, bwf(bits@), allbits(bev(bits@)), bev(bits@)[0] == f0(), k == fint(pow2((i - 1) as nat) as int), remained_signal.ev() == fsub(signal.ev(), fint(lesum(bev(bits@)) as int)), honest() ==> forall|j: int| 1 <= j < i ==> #[trigger] bev(bits@)[j] == fb(ibit(nint(signal.ev()), j)), forall|j: int| i <= j < limit ==> #[trigger] bev(bits@)[j] == f0()
ent2: let ghost b0 = bits@; proof { l_pdbl((i - 1) as nat); }
end2: proof { if honest() { assert(value_bits@[i as int] == Some(ibit(nint(signal.ev()), i as int))); l_bitsev(s, ibit(nint(signal.ev()), i as int)); } l_bevu(b0, i as int, s); l_setbit(bev(b0), i as int, s.ev()); l_wbit(s.ev(), i as nat); l_fint_add(lesum(bev(b0)) as int, bitn(s.ev()) * pow2(i as nat)); l_subsub(signal.ev(), fint(lesum(bev(b0)) as int), fint(bitn(s.ev()) * pow2(i as nat))); }
post2: proof { l_fin2(bits@, signal.ev(), remained_signal.ev(), limit as nat); }
## circuit::bitify|||c_comp_constant
req: bwf(signal@), allbits(bev(signal@)), signal@.len() <= 64 * nlimbs(), honest() ==> signal@.len() > 0
ens: r.wf(), r.ev() == fb(lesum(bev(signal@)) > nint(ct))
loops: iter range
begin: ax_nbits(); ax_nint(ct); l_nbound(ct); l_half(signal@.len() as usize); l_nint01(); l_fint01(); l_lebound(bev(signal@)); l_fb01();
inv0: invariant __i0 <= __n0, __s3@.len() == 64 * nlimbs(), __s3k == 2 * nsteps, __n0 == 64 * nlimbs() - 2 * nsteps, 2 * nsteps <= 64 * nlimbs(), 64 * nlimbs() <= u32::MAX, forall|j: int| 0 <= j < __s3@.len() ==> #[trigger] __s3@[j] == ibit(nint(ct), j), __o0 ==> exists|j: int| 2 * nsteps <= j < 64 * nlimbs() && #[trigger] ibit(nint(ct), j), !__o0 ==> forall|j: int| 2 * nsteps <= j < 2 * nsteps + __i0 ==> ! #[trigger] ibit(nint(ct), j) decreases __n0 - __i0
ent0: proof { assert(__s3@[2 * nsteps + __i0] == ibit(nint(ct), 2 * nsteps + __i0)); }
post0: proof { l_even(bev(signal@), nsteps as nat); if __o0 { let j = choose|j: int| 2 * nsteps <= j < 64 * nlimbs() && #[trigger] ibit(nint(ct), j); l_ge(nint(ct), 2 * nsteps as nat, j); } else { l_lim(nint(ct)); l_lt(nint(ct), 2 * nsteps as nat, 64 * nlimbs()); } }
pre1: proof { l_pdbl(0); l_padc(signal@, sig_zero@, sig_bits.all()); lemma2_to64(); l_acc0(acc.ev(), bev(sig_bits.all()), nint(ct)); }
inv1: invariant 0 < nsteps, nsteps <= 32 * nlimbs(), 64 * nlimbs() <= u32::MAX, sig_bits.wf(), sig_bits.k() == 2 * __i1, sig_bits.all().len() == 2 * nsteps, bwf(sig_bits.all()), allbits(bev(sig_bits.all())), lesum(bev(sig_bits.all())) == lesum(bev(signal@)), ct_bits.wf(), ct_bits.n == 2 * __i1, ct_bits.sz == 64 * nlimbs(), ct_bits.t.rint() == nint(ct), nint(ct) >= 0, k == fint(pow2(__i1 as nat) as int), acc.wf(), accok(acc.ev(), __i1 as nat, bev(sig_bits.all()), nint(ct))
ent1: let ghost sq = bev(sig_bits.all()); proof { l_pdbl(__i1 as nat); l_accstep(acc.ev(), __i1 as nat, sq, nint(ct)); assert(sq[2 * __i1] == sig_bits.all()[2 * __i1].ev()); assert(sq[2 * __i1 + 1] == sig_bits.all()[2 * __i1 + 1].ev()); }
end1: proof { assert(sq == bev(sig_bits.all())); }
post1: proof { l_accfin(acc.ev(), nsteps as nat, bev(sig_bits.all()), nint(ct)); assert forall|b: Seq<CBool<'a>>| b.len() == nsteps + 1 && allbits(bev(b)) implies (#[trigger] bev(b)[nsteps as int] == f1()) == (lesum(bev(b)) >= pow2(nsteps as nat)) && isbit(b[nsteps as int].ev()) by { l_top(bev(b), nsteps as nat); } }
## circuit::bitify|||c_into_bits_le_strict
req: signal.wf()
ens: r@.len() == nbits(), bwf(r@), allbits(bev(r@)), lesum(bev(r@)) == nint(signal.ev())
begin: ax_nbits(); ax_nint(signal.ev()); l_nint_neg(f1()); l_nint01(); l_fb01(); assert(f1() != f0()) by { broadcast use fieldax; } assert forall|b: Seq<Num>| signal.ev() == fint(lesum(b) as int) && lesum(b) <= pmod() - 1 implies #[trigger] lesum(b) == nint(signal.ev()) by { l_exact(signal.ev(), b); }
