@area h2c
@include cecc smul bitify
%% raw
// TRUSTED facts about the parameter u (evaluated by C13's and C23's checks): it is not a square, and of v and u v one always is
pub axiom fn ax_u(y: Num) ensures fmul(y, y) != cu();
pub axiom fn ax_u2(v: Num) ensures issq(v) || issq(fmul(v, cu()));
pub open spec fn issq(v: Num) -> bool { exists|y: Num| #[trigger] fmul(y, y) == v }
pub open spec fn iseven(y: Num) -> bool { nint(y) % 2 == 0 }
pub open spec fn eroot(v: Num) -> Num { choose|y: Num| #[trigger] fmul(y, y) == v && iseven(y) }
pub open spec fn gm(x: Num) -> Num { fdiv(F!{ x*x*(x + `ca()`) + x }, cb()) }
pub open spec fn swk(t: Num) -> Num { F!{ (t + 1)*(t + 1)*`cu()` } }
pub open spec fn swx2(t: Num) -> Num { F!{ `fdiv(fneg(f1()), ca())` * (1 + `finv(swk(t))`) } }
pub open spec fn swx3(t: Num) -> Num { fmul(swx2(t), swk(t)) }
/// the simplified SWU candidate, with even y
pub open spec fn swm(t: Num) -> MontgomeryPoint { if issq(gm(swx2(t))) { MontgomeryPoint { x: swx2(t), y: eroot(gm(swx2(t))) } } else { MontgomeryPoint { x: swx3(t), y: eroot(gm(swx3(t))) } } }
pub open spec fn swu(t: Num) -> EdwardsPoint { e8(mmap(swm(t))) }
pub proof fn l_ab() ensures ca() != f0(), cb() != f0(), cu() != f0()
{ broadcast use fieldax; ax_mont(); l_char2(); let d = cd(); let a = ca(); let b = cb(); ax_d(f1()); ax_u(f0()); l_fint01(); if a == f0() { RING!{ 2*(1 - d) == 0 | 0*(1 + d) == 2*(1 - d) with -1 } RING!{ 1 == d | 1 - d == 0 with 1 } } if b == f0() { RING!{ 2 * 2 == 0 | 0*(1 + d) == -4 with 1 } } }
pub proof fn l_evn(y: Num) ensures iseven(y) || iseven(fneg(y)), fmul(fneg(y), fneg(y)) == fmul(y, y) { broadcast use fieldax; RING!{ (-y)*(-y) == y*y } if y != f0() { l_parity(y); } else { l_nint01(); } }
pub proof fn l_eroot(y: Num, v: Num) requires fmul(y, y) == v, iseven(y) ensures y == eroot(v), issq(v)
{ broadcast use fieldax; let z = eroot(v); assert(fmul(z, z) == v && iseven(z)); RING!{ (y - z)*(y + z) == 0 | y*y == v with 1 | z*z == v with -1 } if y != z { RING!{ y == -z | y + z == 0 with 1 } if z == f0() { l_neg0(); } else { l_parity(z); } } }
pub proof fn l_eroot2(v: Num) requires issq(v) ensures fmul(eroot(v), eroot(v)) == v, iseven(eroot(v)) { let y = choose|y: Num| #[trigger] fmul(y, y) == v; l_evn(y); if iseven(y) { l_eroot(y, v); } else { l_eroot(fneg(y), v); } }
pub proof fn l_onm(x: Num, y: Num) requires fmul(y, y) == gm(x) ensures onm(x, y)
{ broadcast use fieldax; l_ab(); let a = ca(); let b = cb(); let g = gm(x); let n = F!{ x*x*(x + a) + x }; assert(fmul(g, b) == n); RING!{ b*(y*y) == x*x*x + a*(x*x) + x | y*y == g with b | g*b == x*x*(x + a) + x with 1 } }
pub proof fn l_gnz(x: Num) requires x != f0() ensures gm(x) != f0() { broadcast use fieldax; if gm(x) == f0() { RING!{ 0*0 == 0 } l_onm(x, f0()); l_unmap(MontgomeryPoint { x, y: f0() }); } }
/// a square and a non-square multiple
pub proof fn l_usq(v: Num) requires v != f0(), issq(v) ensures !issq(fmul(v, cu()))
{ broadcast use fieldax; let u = cu(); if issq(fmul(v, u)) { let y = choose|y: Num| #[trigger] fmul(y, y) == v; let z = choose|z: Num| #[trigger] fmul(z, z) == fmul(v, u); if y == f0() { RING!{ 0*0 == 0 } } let w = fdiv(z, y); assert(fmul(w, y) == z); RING!{ w*w*v == u*v | w*y == z with w*y + z | z*z == v*u with 1 | y*y == v with -(w*w) } l_mulcancel(fmul(w, w), u, v); ax_u(w); } }
pub proof fn l_swk(t: Num) requires t != fneg(f1()) ensures swk(t) != f0(), F!{ t + 1 } != f0(), F!{ `swk(t)` + 1 } != f0()
{ broadcast use fieldax; l_ab(); let u = cu(); let s = F!{ t + 1 }; if s == f0() { RING!{ t == -1 | t + 1 == 0 with 1 } } let k = swk(t);
  if F!{ k + 1 } == f0() { let i = si(); ax_si(); let w = fdiv(i, s); assert(fmul(w, s) == i); assert(k == F!{ s*s*u }); RING!{ s*s*(w*w - u) == 0 | w*s == i with w*s + i | i*i == -1 with 1 | s*s*u + 1 == 0 with -1 } RING!{ w*w - u == w*w - u } if F!{ w*w - u } == f0() { RING!{ w*w == u | w*w - u == 0 with 1 } ax_u(w); } } }
/// both ways of writing the candidates; g(x3) = k^3 g(x2)
pub proof fn l_swu(t: Num) requires t != fneg(f1()) ensures ({ let k = swk(t); let x3c = F!{ `fdiv(fneg(f1()), ca())` * (k + 1) }; k != f0() && x3c == swx3(t) && fdiv(x3c, k) == swx2(t) && swx2(t) != f0() && swx3(t) != f0() && ca() != f0() && cb() != f0() && F!{ k*k*k*`gm(swx2(t))` } == gm(swx3(t)) && (issq(gm(swx2(t))) || issq(gm(swx3(t)))) && gm(swx2(t)) != f0() && gm(swx3(t)) != f0() })
{ broadcast use fieldax; l_ab(); l_swk(t); let k = swk(t); let m = fdiv(fneg(f1()), ca()); let i = finv(k); assert(fmul(k, i) == f1()); let x2 = swx2(t); let x3 = swx3(t); let a = ca(); let b = cb(); assert(fmul(m, a) == fneg(f1()));
  let x3c = F!{ m * (k + 1) }; RING!{ m*(1 + i)*k == m*(k + 1) | k*i == 1 with m } l_divunique(x2, x3c, k);
  if m == f0() { RING!{ 0*a == 0 } l_neg0(); RING!{ -(-1) == 1 } } assert(x3c != f0()); 
  RING!{ a*x2*k == -(k + 1) | x2*k == m*(k + 1) with a | m*a == -1 with k + 1 }
  let g2 = gm(x2); let g3 = gm(x3); assert(fmul(g2, b) == F!{ x2*x2*(x2 + a) + x2 }); assert(fmul(g3, b) == F!{ x3*x3*(x3 + a) + x3 }); assert(x3 == fmul(x2, k));
  RING!{ k*k*k*g2*b == x2*k*(x2*k)*(x2*k + a) + x2*k | g2*b == x2*x2*(x2 + a) + x2 with k*k*k | a*x2*k == -(k + 1) with x2*k*(k - 1) } l_mulcancel(F!{ k*k*k*g2 }, g3, b); l_gnz(x2); l_gnz(x3);
  if !issq(g2) { ax_u2(g2); let u = cu(); let z = choose|z: Num| #[trigger] fmul(z, z) == fmul(g2, u); let s = F!{ t + 1 }; let w = F!{ s*s*s*u*z }; RING!{ s*s*s*u*z*(s*s*s*u*z) == s*s*u*(s*s*u)*(s*s*u)*g2 | z*z == g2*u with s^6*u^2 } assert(fmul(w, w) == g3); } }
pub proof fn l_swm(t: Num) requires t != fneg(f1()) ensures onmont(swm(t)), oncurve(mmap(swm(t))), insub(swu(t)), issq(gm(swx2(t))) || issq(gm(swx3(t)))
{ l_swu(t); if issq(gm(swx2(t))) { l_eroot2(gm(swx2(t))); } else { l_eroot2(gm(swx3(t))); } l_onm(swm(t).x, swm(t).y); l_unmap(swm(t)); l_insub_e8(mmap(swm(t))); }
pub proof fn l_evenroots() ensures forall|y: Num, v: Num| #[trigger] fmul(y, y) == v && iseven(y) ==> y == #[trigger] eroot(v), forall|y: Num| iseven(y) || iseven(#[trigger] fneg(y)), forall|y: Num| fmul(#[trigger] fneg(y), fneg(y)) == fmul(y, y), forall|y: Num| issq(#[trigger] fmul(y, y))
{ assert forall|y: Num, v: Num| #[trigger] fmul(y, y) == v && iseven(y) implies y == #[trigger] eroot(v) by { l_eroot(y, v); } assert forall|y: Num| iseven(y) || iseven(#[trigger] fneg(y)) by { l_evn(y); } assert forall|y: Num| fmul(#[trigger] fneg(y), fneg(y)) == fmul(y, y) by { l_evn(y); } }
pub proof fn l_leparity(s: Seq<Num>) requires s.len() > 0 ensures lesum(s) % 2 == bitn(s[0]) decreases s.len()
{ lemma2_to64(); let n = (s.len() - 1) as nat; let b = bitn(s.last()); if n == 0 { assert(s.drop_last() =~= Seq::empty()); reveal_with_fuel(lesum, 2); assert(b * 1 == b); } else { l_leparity(s.drop_last()); lemma_pow2_unfold(n); let q = pow2((n - 1) as nat) as int; lemma_pow2_pos((n - 1) as nat); assert(b * (2 * q) == 2 * (b * q)) by (nonlinear_arith); assert(b * q >= 0) by (nonlinear_arith) requires b >= 0, q >= 0; assert(s.drop_last()[0] == s[0]); } }
pub proof fn l_bit0<'a>() ensures forall|b: Seq<CBool<'a>>| #![trigger bev(b)] b.len() > 0 && allbits(bev(b)) ==> (lesum(bev(b)) % 2 == 0) == (b[0].ev() == f0())
{ assert forall|b: Seq<CBool<'a>>| #![trigger bev(b)] b.len() > 0 && allbits(bev(b)) implies (lesum(bev(b)) % 2 == 0) == (b[0].ev() == f0()) by { assert(isbit(bev(b)[0])); broadcast use fieldax; l_leparity(bev(b)); assert(bev(b)[0] == b[0].ev()); } }
pub proof fn l_onebit() ensures F!{ 1 + 1 - 1 } != f0(), F!{ 1 + 0 - 1 } == f0(), F!{ 0 + 1 - 1 } == f0(), F!{ 0 + 0 - 1 } != f0() { broadcast use fieldax; RING!{ 1 + 1 - 1 == 1 } RING!{ 1 + 0 - 1 == 0 } RING!{ 0 + 1 - 1 == 0 } RING!{ 0 + 0 - 1 == -1 } if fneg(f1()) == f0() { RING!{ -(-1) == 1 } l_neg0(); } }
pub proof fn l_sq1_all() ensures forall|a: Num, b: Num| #![trigger sq1(a), sq1(b)] (sq1(a) == sq1(b)) == (a == b) { assert forall|a: Num, b: Num| #![trigger sq1(a), sq1(b)] (sq1(a) == sq1(b)) == (a == b) by { broadcast use fieldax; assert(sq1(a)[0] == a); assert(sq1(b)[0] == b); } }
## native::ecc|||EdwardsPointF_from_scalar_raw__g
req: montgomery_a == ca(), montgomery_b == cb()
ens: r == gm(x)
begin: l_ab();
## native::ecc|||EdwardsPointF_from_scalar_raw__filter_even ;; circuit::ecc|||CEdwardsPointaCS_from_scalar__filter_even
ens: iseven(r), r == x || r == fneg(x), fmul(r, r) == fmul(x, x)
begin: l_evn(x);
## native::ecc||EdwardsPoint|from_scalar_raw
req: t != fneg(f1()), montgomery_a == ca(), montgomery_b == cb(), montgomery_u == cu()
ens: r == swu(t), insub(r)
hide: gm, eadd, e8, mmap, smul, onm
begin: l_swu(t); l_swm(t); l_ab(); l_evenroots();
## native::ecc||EdwardsPoint|from_scalar
req: t != fneg(f1())
ens: r == swu(t), insub(r)
## circuit::ecc|||CEdwardsPointaCS_from_scalar__check_and_get_y
req: x.wf(), x.ev() != f0()
ens: r.0.wf(), r.1.wf(), isbit(r.0.ev()), r.0.ev() == fb(issq(gm(x.ev()))), r.0.ev() == f1() ==> r.1.ev() == eroot(gm(x.ev()))
hide: eadd, e8, mmap, smul, onm
subst: filter_even ( => CEdwardsPointaCS_from_scalar__filter_even (
begin: l_ab(); l_gnz(x.ev()); l_evenroots(); ax_u2(gm(x.ev())); if issq(gm(x.ev())) { l_usq(gm(x.ev())); } l_bit0(); ax_nbits(); l_onebit(); l_sq1_all(); 
## circuit::ecc||CEdwardsPoint|from_scalar
req: t.wf(), t.ev() != fneg(f1())
ens: r.wf(), r.pt() == swu(t.ev()), insub(r.pt())
hide: gm, eadd, e8, mmap, smul, onm
begin: l_swu(t.ev()); l_swm(t.ev()); l_ab(); l_onebit(); l_sq1_all();
