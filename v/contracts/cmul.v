@area cmul
@include cecc smul mux stdx bits
%% raw
pub proof fn l_evpt<'a>(c: CEdwardsPoint<'a>, p: EdwardsPoint) ensures (c.evs() == CEdwardsPoint::<'a>::vnums(p)) == (c.pt() == p)
{ broadcast use fieldax; let a = sq1(c.x.ev()); let b = sq1(c.y.ev()); l_cat(a, b, sq1(p.x), sq1(p.y)); assert(a[0] == c.x.ev()); assert(sq1(p.x)[0] == p.x); assert(b[0] == c.y.ev()); assert(sq1(p.y)[0] == p.y); }
pub proof fn l_inv8(s: int, p: EdwardsPoint) requires insub(p), 0 <= s, (8 * s) % order() == 1 ensures e8(smul(s as nat, p)) == p, oncurve(smul(s as nat, p))
{ ax_order(); l_smul_on(s as nat, p); l_smul_1(smul(s as nat, p)); l_smul_mul(8, s as nat, p); l_smul_mod((8 * s) as nat, p); l_smul_1(p); }
pub proof fn l_subx_all() ensures forall|p: EdwardsPoint, q: EdwardsPoint| #[trigger] insub(p) && #[trigger] insub(q) && p.x == q.x ==> p == q
{ assert forall|p: EdwardsPoint, q: EdwardsPoint| #[trigger] insub(p) && #[trigger] insub(q) && p.x == q.x implies p == q by { l_subx(p, q); } }
pub proof fn l_inv8_all() ensures order() > 8, forall|s: NumS, p: EdwardsPoint| insub(p) && (8 * sint(s)) % order() == 1 ==> e8(#[trigger] smul(sint(s) as nat, p)) == p && oncurve(smul(sint(s) as nat, p))
{ ax_order(); assert forall|s: NumS, p: EdwardsPoint| insub(p) && (8 * sint(s)) % order() == 1 implies e8(#[trigger] smul(sint(s) as nat, p)) == p && oncurve(smul(sint(s) as nat, p)) by { ax_sint(s); l_inv8(sint(s), p); } }
pub proof fn l_e8_all() ensures forall|p: EdwardsPoint| oncurve(p) ==> insub(#[trigger] e8(p)) { assert forall|p: EdwardsPoint| oncurve(p) implies insub(#[trigger] e8(p)) by { l_insub_e8(p); } }
pub proof fn l_evpt_all<'a>(zz: &CNum<'a>) ensures forall|c: CEdwardsPoint<'a>, p: EdwardsPoint| #![trigger c.evs(), CEdwardsPoint::<'a>::vnums(p)] (c.evs() == CEdwardsPoint::<'a>::vnums(p)) == (c.pt() == p)
{ assert forall|c: CEdwardsPoint<'a>, p: EdwardsPoint| #![trigger c.evs(), CEdwardsPoint::<'a>::vnums(p)] (c.evs() == CEdwardsPoint::<'a>::vnums(p)) == (c.pt() == p) by { l_evpt(c, p); } }
pub proof fn l_evpt2<'a>(c: CEdwardsPoint<'a>, e: CEdwardsPoint<'a>) ensures (c.evs() == e.evs()) == (c.pt() == e.pt())
{ l_evpt(c, e.pt()); assert(CEdwardsPoint::<'a>::vnums(e.pt()) == e.evs()); }
pub proof fn l_evpm<'a>(c: CMontgomeryPoint<'a>, p: MontgomeryPoint) ensures (c.evs() == CMontgomeryPoint::<'a>::vnums(p)) == (c.pt() == p)
{ broadcast use fieldax; let a = sq1(c.x.ev()); let b = sq1(c.y.ev()); l_cat(a, b, sq1(p.x), sq1(p.y)); assert(a[0] == c.x.ev()); assert(sq1(p.x)[0] == p.x); assert(b[0] == c.y.ev()); assert(sq1(p.y)[0] == p.y); }
pub proof fn l_evpm2<'a>(c: CMontgomeryPoint<'a>, e: CMontgomeryPoint<'a>) ensures (c.evs() == e.evs()) == (c.pt() == e.pt())
{ l_evpm(c, e.pt()); assert(CMontgomeryPoint::<'a>::vnums(e.pt()) == e.evs()); }
pub proof fn l_ev_all<'a>(zz: &CNum<'a>) ensures
  forall|c: CEdwardsPoint<'a>, p: EdwardsPoint| #![trigger c.evs(), CEdwardsPoint::<'a>::vnums(p)] (c.evs() == CEdwardsPoint::<'a>::vnums(p)) == (c.pt() == p),
  forall|c: CEdwardsPoint<'a>, p: CEdwardsPoint<'a>| #![trigger c.evs(), p.evs()] (c.evs() == p.evs()) == (c.pt() == p.pt()),
  forall|c: CMontgomeryPoint<'a>, p: MontgomeryPoint| #![trigger c.evs(), CMontgomeryPoint::<'a>::vnums(p)] (c.evs() == CMontgomeryPoint::<'a>::vnums(p)) == (c.pt() == p),
  forall|c: CMontgomeryPoint<'a>, p: CMontgomeryPoint<'a>| #![trigger c.evs(), p.evs()] (c.evs() == p.evs()) == (c.pt() == p.pt())
{ assert forall|c: CEdwardsPoint<'a>, p: EdwardsPoint| #![trigger c.evs(), CEdwardsPoint::<'a>::vnums(p)] (c.evs() == CEdwardsPoint::<'a>::vnums(p)) == (c.pt() == p) by { l_evpt(c, p); }
  assert forall|c: CEdwardsPoint<'a>, p: CEdwardsPoint<'a>| #![trigger c.evs(), p.evs()] (c.evs() == p.evs()) == (c.pt() == p.pt()) by { l_evpt2(c, p); }
  assert forall|c: CMontgomeryPoint<'a>, p: MontgomeryPoint| #![trigger c.evs(), CMontgomeryPoint::<'a>::vnums(p)] (c.evs() == CMontgomeryPoint::<'a>::vnums(p)) == (c.pt() == p) by { l_evpm(c, p); }
  assert forall|c: CMontgomeryPoint<'a>, p: CMontgomeryPoint<'a>| #![trigger c.evs(), p.evs()] (c.evs() == p.evs()) == (c.pt() == p.pt()) by { l_evpm2(c, p); } }
/// the accumulator: a point of the subgroup moved by the point of order two
pub open spec fn offp(q: EdwardsPoint) -> EdwardsPoint { eadd(m1(), q) }
pub proof fn l_off(q: EdwardsPoint) requires insub(q) ensures oncurve(offp(q)), offp(q) != ezero(), !insub(offp(q)), !insub(eneg(offp(q))), onmont(emap(offp(q))), mmap(emap(offp(q))) == offp(q), (EdwardsPoint { x: fneg(offp(q).x), y: fneg(offp(q).y) }) == q
{ l_m1(q); l_closed(m1(), q); let a = offp(q); l_eneg(q); l_insub_m1(); l_eadd0(m1());
  if insub(a) { l_insub_neg(q); l_insub_add(a, eneg(q)); ax_assoc(m1(), q, eneg(q)); l_eneg(q); }
  if insub(eneg(a)) { l_insub_neg(eneg(a)); broadcast use fieldax; assert(eneg(eneg(a)) == a); }
  l_map(a); l_m1(a); ax_assoc(m1(), m1(), q); l_eadd_comm(a, m1()); l_eadd0(q); l_eadd_comm(q, ezero()); ax_assoc(m1(), q, m1()); l_eadd_comm(q, m1()); }
pub proof fn l_mstep(q: EdwardsPoint, e: EdwardsPoint) requires insub(q), insub(e), e != ezero()
  ensures onmont(emap(offp(q))), mmap(emap(offp(q))) == offp(q), onmont(emap(e)), mmap(emap(e)) == e, emap(offp(q)).x != emap(e).x, emap(e).x != f0(), e.x != f0(), eadd(offp(q), e) == offp(eadd(q, e)), insub(eadd(q, e))
{ l_off(q); let a = offp(q); l_map(e); if e.x == f0() { l_order2(e); } l_m1(q); ax_assoc(m1(), q, e); l_insub_add(q, e);
  if emap(a).x == emap(e).x { if a.x == f0() { broadcast use fieldax; assert(emap(a).x == f0()); } assert(a.y == e.y); l_samey(a, e); l_insub_neg(e); } }
pub proof fn l_off0() ensures emap(offp(ezero())) == (MontgomeryPoint { x: f0(), y: f0() }), offp(ezero()) == m1(), mmap(MontgomeryPoint { x: f0(), y: f0() }) == m1(), (EdwardsPoint { x: fneg(m1().x), y: fneg(m1().y) }) == ezero(), insub(ezero()), onmont(MontgomeryPoint { x: f0(), y: f0() })
{ l_m1(ezero()); l_eadd0(m1()); l_insub_m1(); l_off(ezero()); }
pub open spec fn wsum(j: nat) -> nat decreases j { if j == 0 { 0 } else { wsum((j - 1) as nat) + pow2(3 * ((j - 1) as nat)) } }
pub open spec fn win(s: Seq<Num>, i: int) -> nat { (bitn(s[3 * i]) + 2 * bitn(s[3 * i + 1]) + 4 * bitn(s[3 * i + 2])) as nat }
pub proof fn l_window(s: Seq<Num>, i: int) requires 0 <= i, 3 * i + 3 <= s.len() ensures lesum(s.take(3 * i + 3)) == lesum(s.take(3 * i)) + win(s, i) * pow2((3 * i) as nat), 0 <= win(s, i) < 8
{ l_lestep(s, 3 * i); l_lestep(s, 3 * i + 1); l_lestep(s, 3 * i + 2); let p = pow2((3 * i) as nat); lemma_pow2_unfold((3 * i + 1) as nat); lemma_pow2_unfold((3 * i + 2) as nat);
  let a = bitn(s[3 * i]); let b = bitn(s[3 * i + 1]); let c = bitn(s[3 * i + 2]); assert(a * p + b * (2 * p) + c * (2 * (2 * p)) == (a + 2 * b + 4 * c) * p) by (nonlinear_arith); }
/// one step of the native windows: base times 8, accumulator plus base
pub proof fn l_wstep(j: nat, p: EdwardsPoint) requires insub(p), p != ezero()
  ensures ({ let b = smul(pow2(3 * j), p); insub(b) && b != ezero() && eadd(offp(smul(wsum(j), p)), b) == offp(smul(wsum(j + 1), p)) && insub(smul(wsum(j), p)) && oncurve(offp(smul(wsum(j), p))) && oncurve(m1()) && oncurve(b)
     && eadd(eadd(eadd(b, b), eadd(b, b)), eadd(eadd(b, b), eadd(b, b))) == smul(pow2(3 * (j + 1)), p) && wsum(0) == 0 && pow2(0) == 1 && smul(pow2(0), p) == p && offp(smul(0, p)) == m1() }) decreases j
{ let b = smul(pow2(3 * j), p); l_insub_smul(pow2(3 * j), p); l_insub_smul(wsum(j), p); l_smul_1(p); lemma2_to64(); l_off0(); ax_order();
  if j > 0 { l_wstep((j - 1) as nat, p); let c = smul(pow2(3 * ((j - 1) as nat)), p); l_smul_1(c); l_nonzero(8, c); assert(3 * ((j - 1) as nat + 1) == 3 * j); assert(b == smul(8, c)); }
  l_mstep(smul(wsum(j), p), b); l_off(smul(wsum(j), p)); l_smul_add(wsum(j), pow2(3 * j), p); assert(3 * ((j + 1 - 1) as nat) == 3 * j);
  l_smul_1(b); l_smul_mul(8, pow2(3 * j), p); lemma_pow2_unfold(3 * j + 3); lemma_pow2_unfold(3 * j + 2); lemma_pow2_unfold(3 * j + 1); assert(8 * pow2(3 * j) == pow2(3 * (j + 1))); l_m1(p); }
/// the accumulator of the circuit windows
pub open spec fn accq(s: Seq<Num>, i: int, n: nat, p: EdwardsPoint) -> EdwardsPoint { eadd(eneg(smul(wsum(n), p)), smul((wsum(i as nat) + lesum(s.take(3 * i))) as nat, p)) }
pub proof fn l_cstep(s: Seq<Num>, i: int, n: nat, p: EdwardsPoint) requires insub(p), p != ezero(), 0 <= i, 3 * i + 3 <= s.len()
  ensures ({ let b = smul(pow2((3 * i) as nat), p); let q = accq(s, i, n, p); let e = smul(win(s, i) + 1, b); insub(q) && insub(e) && e != ezero() && insub(b) && b != ezero() && onmont(emap(offp(q))) && mmap(emap(offp(q))) == offp(q) && onmont(emap(e)) && mmap(emap(e)) == e && emap(offp(q)).x != emap(e).x && eadd(offp(q), e) == offp(accq(s, i + 1, n, p)) && win(s, i) < 8 })
{ let b = smul(pow2((3 * i) as nat), p); let q = accq(s, i, n, p); let k = win(s, i) + 1; let e = smul(k, b); let w = (wsum(i as nat) + lesum(s.take(3 * i))) as nat; ax_order();
  l_wstep(i as nat, p); l_window(s, i); l_nonzero(k, b); l_insub_smul(k, b); l_insub_smul(wsum(n), p); l_insub_neg(smul(wsum(n), p)); l_insub_smul(w, p); l_insub_add(eneg(smul(wsum(n), p)), smul(w, p)); l_mstep(q, e);
  l_smul_mul(k, pow2((3 * i) as nat), p); l_smul_add(w, k * pow2((3 * i) as nat), p); ax_assoc(eneg(smul(wsum(n), p)), smul(w, p), e); let t = pow2((3 * i) as nat); let v = win(s, i); assert((v + 1) * t == v * t + t) by (nonlinear_arith);
  assert(wsum((i + 1) as nat) == wsum(i as nat) + t); assert(3 * (i + 1) == 3 * i + 3); assert(wsum((i + 1) as nat) + lesum(s.take(3 * (i + 1))) == w + k * t); }
pub proof fn l_cfin(s: Seq<Num>, n: nat, p: EdwardsPoint) requires insub(p), s.len() == 3 * n
  ensures insub(accq(s, n as int, n, p)), accq(s, n as int, n, p) == smul(lesum(s), p), accq(s, 0, n, p) == eneg(smul(wsum(n), p)), insub(smul(wsum(n), p)), insub(accq(s, 0, n, p)), offp(accq(s, 0, n, p)) == eneg(offp(smul(wsum(n), p)))
{ let w = wsum(n); assert(s.take((3 * n) as int) =~= s); assert(s.take(0).len() == 0); let l = lesum(s); l_insub_smul(w, p); l_insub_smul(l, p); l_insub_neg(smul(w, p)); l_smul_add(w, l, p); ax_assoc(eneg(smul(w, p)), smul(w, p), smul(l, p)); l_eneg(smul(w, p)); l_eadd_comm(eneg(smul(w, p)), smul(w, p)); l_eadd0(smul(l, p)); l_eadd_comm(ezero(), smul(l, p)); l_eadd0(eneg(smul(w, p))); assert(wsum(0) == 0); assert(s.take(0int).len() == 0); assert(lesum(s.take(0int)) == 0); l_negadd(m1(), smul(w, p)); l_m1(p); l_smul_1(p); }
pub proof fn l_gt(i: nat, p: EdwardsPoint) requires insub(p), p != ezero(), 1 <= i <= 8 ensures smul(i, p) != ezero(), oncurve(smul(i, p)), smul(i + 1, p) == eadd(smul(i, p), p), smul(1, p) == p
{ ax_order(); l_nonzero(i, p); l_smul_on(i, p); l_smul_1(p); }
pub proof fn l_pad<'a>(b: Seq<CBool<'a>>, z: Seq<CBool<'a>>, a: Seq<CBool<'a>>) requires a == b + z, forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]).ev() == f0() && z[i].wf(), bwf(b), allbits(bev(b)) ensures bwf(a), allbits(bev(a)), lesum(bev(a)) == lesum(bev(b)), bev(a).len() == a.len()
{ assert(bev(a) =~= bev(b) + bev(z)); assert forall|i: int| 0 <= i < bev(z).len() implies #[trigger] bev(z)[i] == f0() by { assert(z[i].ev() == f0()); } l_lezeros(bev(b), bev(z)); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).wf() by { if i >= b.len() { assert(a[i] == z[i - b.len()]); } } 
  assert forall|i: int| 0 <= i < bev(a).len() implies isbit(#[trigger] bev(a)[i]) by { if i < b.len() { assert(bev(a)[i] == bev(b)[i]); } else { assert(a[i] == z[i - b.len()]); } } }
pub open spec fn vpt(p: EdwardsPoint) -> EdwardsPoint { if p.x == f0() { cg() } else { p } }
pub proof fn l_vpt(p: EdwardsPoint) requires insub(p) ensures insub(vpt(p)), vpt(p) != ezero(), (p.x == f0()) == (p == ezero()), vpt(p).x != f0(), oncurve(vpt(p)), smul(1, vpt(p)) == vpt(p), pow2(0) == 1 { ax_gen(); if p.x == f0() { l_order2(p); } if cg().x == f0() { l_order2(cg()); } l_smul_1(vpt(p)); lemma2_to64(); }
pub proof fn l_vnz(i: nat, b: EdwardsPoint) requires insub(b), b != ezero() ensures insub(smul(pow2(i), b)), smul(pow2(i), b) != ezero(), eadd(smul(pow2(i), b), smul(pow2(i), b)) == smul(pow2(i + 1), b) decreases i
{ ax_order(); l_insub_smul(pow2(i), b); l_smul_1(b); lemma2_to64(); if i > 0 { let j = (i - 1) as nat; l_vnz(j, b); let c = smul(pow2(j), b); l_smul_1(c); l_nonzero(2, c); } lemma_pow2_unfold(i + 1); l_smul_add(pow2(i), pow2(i), b); }
pub proof fn l_vdbl(i: nat, b: EdwardsPoint) requires insub(b), b != ezero() ensures ({ let e = smul(pow2(i), b); onmont(emap(e)) && emap(e).x != f0() && mmap(emap(e)) == e && eadd(e, e) == smul(pow2(i + 1), b) })
{ l_vnz(i, b); l_insub_m1(); l_mstep(ezero(), smul(pow2(i), b)); }
pub proof fn l_vstep(s: Seq<Num>, i: int, b: EdwardsPoint) requires insub(b), b != ezero(), 0 <= i < s.len()
  ensures ({ let q = smul(lesum(s.take(i)), b); let e = smul(pow2(i as nat), b); onmont(emap(offp(q))) && mmap(emap(offp(q))) == offp(q) && onmont(emap(e)) && mmap(emap(e)) == e && emap(offp(q)).x != emap(e).x && (s[i] == f1() ==> eadd(offp(q), e) == offp(smul(lesum(s.take(i + 1)), b))) && (s[i] == f0() ==> q == smul(lesum(s.take(i + 1)), b)) })
{ broadcast use fieldax; l_vnz(i as nat, b); l_lestep(s, i); l_insub_smul(lesum(s.take(i)), b); l_mstep(smul(lesum(s.take(i)), b), smul(pow2(i as nat), b)); l_smul_add(lesum(s.take(i)), pow2(i as nat), b); assert(0 * pow2(i as nat) == 0); assert(1 * pow2(i as nat) == pow2(i as nat)); }
pub proof fn l_winbits<'a>(a: Seq<CBool<'a>>, i: int) requires allbits(bev(a)), bwf(a), 0 <= i, 3 * i + 3 <= a.len() ensures ({ let t = a.subrange(3 * i, 3 * (i + 1)); t.len() == 3 && (forall|j: int| 0 <= j < 3 ==> (#[trigger] t[j]).wf()) && isbit(t[0].ev()) && isbit(t[1].ev()) && isbit(t[2].ev()) && (forall|c: Seq<Num>| #![trigger muxsel(c, t[0].ev(), t[1].ev(), t[2].ev())] muxsel(c, t[0].ev(), t[1].ev(), t[2].ev()) == c[win(bev(a), i) as int]) && win(bev(a), i) < 8 })
{ let t = a.subrange(3 * i, 3 * (i + 1)); let s = bev(a); assert(isbit(s[3 * i])); assert(isbit(s[3 * i + 1])); assert(isbit(s[3 * i + 2])); assert(t[0] == a[3 * i]); assert(t[1] == a[3 * i + 1]); assert(t[2] == a[3 * i + 2]); }
## circuit::ecc||CEdwardsPoint|assert_in_subgroup
req: self.wf(), honest() ==> insub(self.pt())
ens: insub(self.pt())
subst: Num :: from (8) => NumS :: from (8)
hide: smul, e8, eadd, oncurve
begin: l_evpt_all(&self.x); l_inv8_all(); l_e8_all();
## circuit::ecc||CEdwardsPoint|subgroup_decompress
req: x.wf(), honest() ==> exists|p: EdwardsPoint| insub(p) && p.x == x.ev()
ens: r.wf(), insub(r.pt()), r.pt().x == x.ev(), forall|p: EdwardsPoint| #[trigger] insub(p) && p.x == x.ev() ==> p == r.pt()
subst: Num :: from (8) => NumS :: from (8)
hide: smul, e8, eadd, oncurve
begin: l_evpt_all(x); l_inv8_all(); l_e8_all(); l_subx_all(); ax_gen();
## circuit::ecc|||CEdwardsPointaCS_mul__gen_table
req: exok(*p), insub(aff(*p)), aff(*p) != ezero()
ens: r@.len() == 2, r@[0]@.len() == 8, r@[1]@.len() == 8, forall|i: int| 0 <= i < 8 ==> (MontgomeryPoint { x: #[trigger] r@[0]@[i], y: r@[1]@[i] }) == emap(smul((i + 1) as nat, aff(*p)))
hide: smul, eadd, emap, mmap, oncurve, aff, exwf
loops: range
pre0: proof { l_gt(1, aff(*p)); }
inv0: invariant exok(*p), insub(aff(*p)), aff(*p) != ezero(), exok(q), aff(q) == smul((__i0 + 1) as nat, aff(*p)), __i0 < 8 ==> aff(q) != ezero(), x_col@.len() == __i0, y_col@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (MontgomeryPoint { x: #[trigger] x_col@[i], y: y_col@[i] }) == emap(smul((i + 1) as nat, aff(*p)))
end0: proof { l_gt((__i0 + 1) as nat, aff(*p)); if __i0 < 7 { l_gt((__i0 + 2) as nat, aff(*p)); } }
## circuit::ecc||CEdwardsPoint|mul
req: self.wf(), insub(self.pt()), bwf(bits@), allbits(bev(bits@)), bits@.len() + 3 <= usize::MAX
ens: r.wf(), r.pt() == smul(lesum(bev(bits@)), self.pt())
attr: #[verifier::rlimit(40)]
hide: smul, eadd, emap, mmap, oncurve, aff, exwf, lesum, wsum, offp, accq
loops: range range range range
begin: l_ev_all(&self.x); l_off0(); ax_gen(); l_insub_m1(); l_vpt(self.pt()); l_smul_0(lesum(bev(bits@)));
pre0: proof { l_wstep(0, self.pt()); l_pad(bits@, zero_bits@, all_bits@); }
inv0: invariant insub(self.pt()), self.pt() != ezero(), exok(acc), exok(base), aff(base) == smul(pow2(3 * (__i0 as nat)), self.pt()), aff(acc) == offp(smul(wsum(__i0 as nat), self.pt()))
end0: proof { l_wstep(__i0 as nat, self.pt()); }
post0: proof { l_cfin(bev(all_bits@), nwindows as nat, self.pt()); l_off(accq(bev(all_bits@), 0, nwindows as nat, self.pt())); l_wstep(nwindows as nat, self.pt()); }
inv1: invariant insub(self.pt()), self.pt() != ezero(), exok(base), aff(base) == smul(pow2(3 * (i as nat)), self.pt()), acc.wf(), acc.pt() == emap(offp(accq(bev(all_bits@), i as int, nwindows as nat, self.pt()))), bwf(all_bits@), allbits(bev(all_bits@)), all_bits@.len() == 3 * nwindows
ent1: proof { l_cstep(bev(all_bits@), i as int, nwindows as nat, self.pt()); l_winbits(all_bits@, i as int); }
end1: proof { l_wstep(i as nat, self.pt()); }
post1: proof { l_off(accq(bev(all_bits@), nwindows as int, nwindows as nat, self.pt())); }
pre2: proof { assert(exponents@.len() == 1); assert(exponents@[0] == base_point); assert(base_point.pt() == emap(vpt(self.pt()))); }
inv2: invariant base_point.wf(), insub(vpt(self.pt())), vpt(self.pt()) != ezero(), bits@.len() >= 1 ==> 1 <= __i2 && exponents@.len() == __i2 && base_point.pt() == emap(smul(pow2((__i2 - 1) as nat), vpt(self.pt()))), forall|j: int| 0 <= j < exponents@.len() ==> (#[trigger] exponents@[j]).wf() && exponents@[j].pt() == emap(smul(pow2(j as nat), vpt(self.pt())))
ent2: proof { l_vdbl((__i2 - 1) as nat, vpt(self.pt())); }
inv3: invariant empty_acc.wf(), acc.wf(), insub(vpt(self.pt())), vpt(self.pt()) != ezero(), bwf(bits@), allbits(bev(bits@)), exponents@.len() >= bits@.len(), acc.pt() == emap(offp(smul(lesum(bev(bits@).take(i as int)), vpt(self.pt())))), forall|j: int| 0 <= j < exponents@.len() ==> (#[trigger] exponents@[j]).wf() && exponents@[j].pt() == emap(smul(pow2(j as nat), vpt(self.pt())))
pre3: proof { reveal(lesum); l_smul_1(vpt(self.pt())); assert(bev(bits@).take(0).len() == 0); }
ent3: let ghost acc0 = acc; proof { l_vstep(bev(bits@), i as int, vpt(self.pt())); assert(isbit(bev(bits@)[i as int])); }
end3: proof { l_evpm2(acc, acc0); l_evpm2(acc, inc_acc); assert(bev(bits@)[i as int] == bits@[i as int].ev()); }
post3: proof { assert(bev(bits@).take(bits@.len() as int) =~= bev(bits@)); l_smul_0(lesum(bev(bits@))); l_insub_smul(lesum(bev(bits@)), vpt(self.pt())); l_off(smul(lesum(bev(bits@)), vpt(self.pt()))); }
