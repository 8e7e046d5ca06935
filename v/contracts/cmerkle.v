@area cmerkle
@novacuity |iter |index |index_mut |iter_mut
@include cpos merkle tupeq bits
@types circuit::poseidon|type|CMerkleProof
%% raw
impl<'a, L: Unsigned> Clone for CMerkleProof<'a, L> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the path as booleans
pub open spec fn bls(s: Seq<Num>) -> Seq<bool> { s.map_values(|n: Num| n == f1()) }
pub proof fn l_ev2<'a>(a: CNum<'a>, b: CNum<'a>) ensures evl([a, b]@) == pair(a.ev(), b.ev()), wfl([a, b]@) == (a.wf() && b.wf()) { assert(evl([a, b]@) =~= pair(a.ev(), b.ev())); let s = [a, b]@; if wfl(s) { assert(s[0].wf()); assert(s[1].wf()); } }
pub proof fn l_swap(s: Num, q: Num) ensures fsub(fadd(q, s), s) == q, fsub(fadd(q, s), q) == s { RING!{ q + s - s == q } RING!{ q + s - q == s } }
pub proof fn l_catall<'a>(s: Seq<CNum<'a>>) ensures allw::<CNum<'a>>(s) == wfl(s) { assert(allw::<CNum<'a>>(s) ==> wfl(s)); assert(wfl(s) ==> allw::<CNum<'a>>(s)); }
## circuit::poseidon|||c_poseidon_merkle_proof_root
req: params.ok(), params.t >= 2, leaf.wf(), wfl(proof.sibling.0@), bwf(proof.path.0@), allbits(bev(proof.path.0@))
ens: r.wf(), r.ev() == mroot(*params, leaf.ev(), bls(bev(proof.path.0@)), evl(proof.sibling.0@), if proof.path.0@.len() < proof.sibling.0@.len() { proof.path.0@.len() } else { proof.sibling.0@.len() })
loops: iter
inv0: invariant params.ok(), params.t >= 2, wfl(proof.sibling.0@), bwf(proof.path.0@), allbits(bev(proof.path.0@)), __i0 <= __n0, __s1 == &proof.path, __s4 == &proof.sibling, __n0 <= proof.path.0@.len(), __n0 <= proof.sibling.0@.len(), root.wf(), root.ev() == mroot(*params, leaf.ev(), bls(bev(proof.path.0@)), evl(proof.sibling.0@), __i0 as nat) decreases __n0 - __i0
ent0: proof { l_swap(s.ev(), root.ev()); assert(bev(proof.path.0@)[__i0 as int] == p.ev()); assert(isbit(p.ev())); l_evlc(proof.sibling.0@); assert forall|s: [CNum<'a>; 2]| #[trigger] evl(s@) == pair(s@[0].ev(), s@[1].ev()) && (s@[0].wf() && s@[1].wf() ==> wfl(s@)) by { assert(evl(s@) =~= pair(s@[0].ev(), s@[1].ev())); }
  assert forall|c: CNum<'a>, v: CNum<'a>| #[trigger] c.evs() == #[trigger] v.evs() implies c.ev() == v.ev() by { l_evsn(&c, v.ev()); } }
## circuit::poseidon|||c_poseidon_merkle_tree_root
req: params.ok(), params.t >= 2, wfl(leaf@), honest() ==> leaf@.len() > 0, leaf@.len() <= 0x400_0000_0000_0000
ens: leaf@.len() > 0, r.wf(), r.ev() == treeroot(*params, evl(leaf@))
loops: range range
begin: reveal(treeroot); assert forall|z: u32| leaf@.len() >= 1 && z <= 64 && (leaf@.len() == 1 ==> z == 64) && (leaf@.len() > 1 ==> z < 64 && #[trigger] pow2((63 - z) as nat) <= leaf@.len() - 1 < pow2((64 - z) as nat)) implies 64 - z <= 58 && depth(leaf@.len()) == 64 - z && leaf@.len() <= pow2((64 - z) as nat) by { l_size(leaf@.len() as usize, z); } assert forall|k: usize| k <= 58 implies #[trigger] (1usize << k) == pow2(k as nat) by { l_shl(k); }
pre0: let ghost k = proof_sz as nat; let ghost s0 = evl(state@); proof { l_evlc(leaf@); l_evlc(state@); assert(s0 =~= padz(evl(leaf@), pow2(k))); l_shr(proof_sz, 0); }
inv0: invariant params.ok(), params.t >= 2, k == proof_sz, k <= 58, total_leaf_sz == (1usize << proof_sz), s0.len() == pow2(k), wfl(state@), state@.len() == s0.len(), evl(state@).take(pow2((k - j) as nat) as int) == tr(*params, s0, j as nat)
ent0: let ghost t0 = tr(*params, s0, j as nat); proof { l_evlc(state@); l_trstep(*params, s0, k, j as nat); l_shr(proof_sz, (j + 1) as usize); l_trlen(*params, s0, k, 0); l_shl(proof_sz); if j > 0 { lemma_pow2_strictly_increases((k - j) as nat, k); } assert forall|x: int| 0 <= x < t0.len() implies (#[trigger] state@[x]).ev() == t0[x] by { assert(evl(state@).take(pow2((k - j) as nat) as int)[x] == t0[x]); } }
inv1: invariant params.ok(), params.t >= 2, k == proof_sz, k <= 58, j < k, wfl(state@), state@.len() == pow2(k), pow2(k) <= usize::MAX / 4, t0.len() == pow2((k - j) as nat), t0.len() <= state@.len(), t0.len() == 2 * (total_leaf_sz >> (j + 1)), forall|x: int| 0 <= x < i ==> (#[trigger] state@[x]).ev() == lvl(*params, t0)[x], forall|x: int| 2 * i <= x < t0.len() ==> (#[trigger] state@[x]).ev() == t0[x]
ent1: proof { let a = t0[2 * i]; let b = t0[2 * i + 1]; assert(state@[2 * i].ev() == a && state@[2 * i + 1].ev() == b); l_ev2(state@[2 * i], state@[2 * i + 1]); }
post1: proof { l_evlc(state@); assert(evl(state@).take(pow2((k - j - 1) as nat) as int) =~= lvl(*params, t0)); assert(k - (j + 1) == k - j - 1); }
post0: proof { assert(pow2(0) == 1) by { lemma2_to64(); } l_evlc(state@); l_trlen(*params, s0, k, k); assert(evl(state@).take(1)[0] == evl(state@)[0]); }
