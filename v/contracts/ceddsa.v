@area ceddsa
@include cmul bitify cpos eddsa
%% raw
pub uninterp spec fn snbits() -> nat;
#[verifier::external_body]
pub fn fs_num_bits() -> (r: u32) ensures r == snbits(), 1 <= snbits() { unimplemented!() }
pub open spec fn hassub(x: Num) -> bool { exists|p: EdwardsPoint| insub(p) && p.x == x }
pub proof fn l_ced<'a>(P: PoseidonParams, s: nat, r: Num, a: Num, m: Num) ensures insub(cg()), forall|c: CEdwardsPoint<'a>, p: EdwardsPoint| #[trigger] c.evs() == #[trigger] CEdwardsPoint::<'a>::vnums(p) ==> c.pt() == p,
  forall|n: nat, p: EdwardsPoint| insub(p) ==> insub(#[trigger] smul(n, p)), forall|p: EdwardsPoint, q: EdwardsPoint| insub(p) && insub(q) ==> insub(#[trigger] eadd(p, q)), forall|p: EdwardsPoint| #[trigger] insub(p) ==> oncurve(p),
  forall|p: EdwardsPoint, q: EdwardsPoint| #[trigger] insub(p) && #[trigger] insub(q) && p.x == q.x ==> p == q,
  forall|pa: EdwardsPoint, pr: EdwardsPoint| #![trigger insub(pa), insub(pr)] insub(pa) && insub(pr) && pa.x == a && pr.x == r ==> sigok(P, s, r, a, m) == sigeq(P, s, pa, pr, m)
{ ax_gen(); l_subx_all(); assert forall|c: CEdwardsPoint<'a>, p: EdwardsPoint| #[trigger] c.evs() == #[trigger] CEdwardsPoint::<'a>::vnums(p) implies c.pt() == p by { l_evpt(c, p); }
  assert forall|n: nat, p: EdwardsPoint| insub(p) implies insub(#[trigger] smul(n, p)) by { l_insub_smul(n, p); }
  assert forall|p: EdwardsPoint, q: EdwardsPoint| insub(p) && insub(q) implies insub(#[trigger] eadd(p, q)) by { l_insub_add(p, q); }
  assert forall|pa: EdwardsPoint, pr: EdwardsPoint| #![trigger insub(pa), insub(pr)] insub(pa) && insub(pr) && pa.x == a && pr.x == r implies sigok(P, s, r, a, m) == sigeq(P, s, pa, pr, m) by { l_sigeq(P, s, pa, pr, m); } }
pub proof fn l_sub0eq() ensures forall|x: Num, y: Num| (#[trigger] fsub(x, y) == f0()) == (x == y) { broadcast use fieldax; assert forall|x: Num, y: Num| (#[trigger] fsub(x, y) == f0()) == (x == y) by { if fsub(x, y) == f0() { RING!{ x == y | x - y == 0 with 1 } } } }
## circuit::eddsaposeidon|||c_eddsaposeidon_verify
req: s.wf(), r.wf(), a.wf(), m.wf(), poseidon_params.ok(), honest() ==> poseidon_params.t >= 4, honest() ==> snbits() < nbits(), honest() ==> nint(s.ev()) < pow2(snbits()), honest() ==> hassub(r.ev()) && hassub(a.ev())
ret: ok
ens: ok.wf(), hassub(r.ev()), hassub(a.ev()), ok.ev() == fb(sigok(*poseidon_params, (nint(s.ev()) % order()) as nat, r.ev(), a.ev(), m.ev()))
hide: smul, eadd, oncurve, insub
begin: ax_nbits(); ax_nint(s.ev()); ax_gen(); l_smul_mod(nint(s.ev()) as nat, cg()); l_ced(*poseidon_params, (nint(s.ev()) % order()) as nat, r.ev(), a.ev(), m.ev()); l_sub0eq(); assert forall|s: [CNum<'a>; 3], k: Num| s[0].ev() == r.ev() && s[1].ev() == a.ev() && s[2].ev() == m.ev() implies #[trigger] evl(s@).push(k) == seq![r.ev(), a.ev(), m.ev(), k] by { assert(evl(s@).push(k) =~= seq![r.ev(), a.ev(), m.ev(), k]); }
