@area merkle
@novacuity |iter |index |index_mut |iter_mut
@include pos sigs
@types native::poseidon|type|MerkleProof
%% raw
global size_of usize == 8;
// TRUSTED renderings
#[verifier::external_body]
pub fn vleading_zeros(x: usize) -> (r: u32) ensures r <= 64, x == 0 ==> r == 64, x > 0 ==> r < 64 && pow2((63 - r) as nat) <= x < pow2((64 - r) as nat) { x.leading_zeros() }
pub fn vsize_of_usize() -> (r: usize) ensures r == 8 { 8 }
pub open spec fn pair(a: Num, b: Num) -> Seq<Num> { Seq::new(2, |i: int| if i == 0 { a } else { b }) }
/// the running node after n steps of an authentication path
pub open spec fn mroot(P: PoseidonParams, leaf: Num, path: Seq<bool>, sib: Seq<Num>, n: nat) -> Num decreases n { if n == 0 { leaf } else { let q = mroot(P, leaf, path, sib, (n - 1) as nat); if path[n - 1] { pos(P, pair(sib[n - 1], q)) } else { pos(P, pair(q, sib[n - 1])) } } }
pub open spec fn lvl(P: PoseidonParams, s: Seq<Num>) -> Seq<Num> { Seq::new(s.len() / 2, |i: int| pos(P, pair(s[2 * i], s[2 * i + 1]))) }
pub open spec fn tr(P: PoseidonParams, s: Seq<Num>, n: nat) -> Seq<Num> decreases n { if n == 0 { s } else { lvl(P, tr(P, s, (n - 1) as nat)) } }
/// least k with n <= 2^k
pub open spec fn depth(n: nat) -> nat decreases n { if n <= 1 { 0 } else { 1 + depth((n + 1) / 2) } }
#[verifier::opaque]
pub open spec fn treeroot(P: PoseidonParams, s: Seq<Num>) -> Num { tr(P, padz(s, pow2(depth(s.len()))), depth(s.len()))[0] }
pub proof fn l_depth(n: nat, k: nat) requires n >= 1, n <= pow2(k), k == 0 || pow2((k - 1) as nat) < n ensures depth(n) == k decreases k
{ lemma2_to64(); if k > 0 { lemma_pow2_unfold(k); lemma_pow2_pos((k - 1) as nat); if k > 1 { lemma_pow2_unfold((k - 1) as nat); } l_depth((n + 1) / 2, (k - 1) as nat); } }
pub proof fn l_trlen(P: PoseidonParams, s: Seq<Num>, k: nat, j: nat) requires s.len() == pow2(k), j <= k ensures tr(P, s, j).len() == pow2((k - j) as nat) decreases j
{ if j > 0 { l_trlen(P, s, k, (j - 1) as nat); lemma_pow2_unfold((k - j + 1) as nat); } }
pub proof fn l_trstep(P: PoseidonParams, s: Seq<Num>, k: nat, j: nat) requires s.len() == pow2(k), j < k ensures tr(P, s, j + 1) == lvl(P, tr(P, s, j)), tr(P, s, j).len() == pow2((k - j) as nat), tr(P, s, j + 1).len() == pow2((k - j - 1) as nat), pow2((k - j) as nat) == 2 * pow2((k - j - 1) as nat)
{ l_trlen(P, s, k, j); l_trlen(P, s, k, j + 1); lemma_pow2_unfold((k - j) as nat); }
/// any leaf of a complete tree with the siblings along its way leads to the root
pub proof fn l_pathroot(P: PoseidonParams, s: Seq<Num>, k: nat, i: int, path: Seq<bool>, sib: Seq<Num>, j: nat)
  requires s.len() == pow2(k), 0 <= i < s.len(), j <= k, path.len() >= k, sib.len() >= k,
    forall|l: int| 0 <= l < k ==> #[trigger] path[l] == ibit(i, l), forall|l: int| #![trigger sib[l]] 0 <= l < k ==> sib[l] == tr(P, s, l as nat)[if ibit(i, l) { i / (pow2(l as nat) as int) - 1 } else { i / (pow2(l as nat) as int) + 1 }]
  ensures mroot(P, s[i], path, sib, j) == tr(P, s, j)[i / (pow2(j) as int)], 0 <= i / (pow2(j) as int) < tr(P, s, j).len() decreases j
{ lemma2_to64(); l_trlen(P, s, k, j); if j == 0 { assert(i / 1 == i); } if j > 0 { let l = (j - 1) as nat; l_pathroot(P, s, k, i, path, sib, l); l_trstep(P, s, k, l); let p = pow2(l) as int; let n = i / p; lemma_pow2_pos(l); lemma_pow2_unfold(j); lemma_div_denominator(i, p, 2); assert(p * 2 == pow2(j)); assert(i / (pow2(j) as int) == n / 2);
    let t = tr(P, s, l); assert(path[l as int] == ibit(i, l as int)); assert(sib[l as int] == t[if ibit(i, l as int) { n - 1 } else { n + 1 }]); let h = n / 2; assert(tr(P, s, j)[h] == pos(P, pair(t[2 * h], t[2 * h + 1])));
    if ibit(i, l as int) { assert(2 * h + 1 == n); } else { assert(2 * h == n); } } }
pub proof fn l_shl(k: usize) requires k <= 58 ensures (1usize << k) == pow2(k as nat), pow2(k as nat) <= 0x400_0000_0000_0000 { lemma2_to64(); lemma2_to64_rest(); if k < 58 { lemma_pow2_strictly_increases(k as nat, 58); } vstd::bits::lemma_usize_shl_is_mul(1, k); }
pub proof fn l_shr(k: usize, j: usize) requires j <= k <= 58 ensures ((1usize << k) >> j) == pow2((k - j) as nat) { l_shl(k); vstd::bits::lemma_usize_shr_is_div(1usize << k, j); lemma_pow2_adds((k - j) as nat, j as nat); lemma_pow2_pos(j as nat); lemma_div_by_multiple(pow2((k - j) as nat) as int, pow2(j as nat) as int); }
pub proof fn l_size(n: usize, z: u32) requires 1 <= n <= 0x400_0000_0000_0000, z <= 64, n == 1 ==> z == 64, n > 1 ==> z < 64 && pow2((63 - z) as nat) <= n - 1 < pow2((64 - z) as nat) ensures 64 - z <= 58, depth(n as nat) == 64 - z, n <= pow2((64 - z) as nat), pow2((64 - z) as nat) <= 0x400_0000_0000_0000
{ lemma2_to64(); lemma2_to64_rest(); if 64 - z > 58 { if 63 - z > 58 { lemma_pow2_strictly_increases(58, (63 - z) as nat); } } else { if 64 - z < 58 { lemma_pow2_strictly_increases((64 - z) as nat, 58); } } l_depth(n as nat, (64 - z) as nat); }
## native::poseidon|||poseidon_merkle_proof_root
req: params.ok(), params.t >= 2
ens: r == mroot(*params, leaf, proof.path.0@, proof.sibling.0@, if proof.path.0@.len() < proof.sibling.0@.len() { proof.path.0@.len() } else { proof.sibling.0@.len() })
loops: iter
inv0: invariant params.ok(), params.t >= 2, __i0 <= __n0, __s1 == &proof.path, __s4 == &proof.sibling, __n0 <= proof.path.0@.len(), __n0 <= proof.sibling.0@.len(), root == mroot(*params, leaf, proof.path.0@, proof.sibling.0@, __i0 as nat) decreases __n0 - __i0
ent0: proof { let q = mroot(*params, leaf, proof.path.0@, proof.sibling.0@, __i0 as nat); assert(pair(s, q) =~= seq![s, q]); assert(pair(q, s) =~= seq![q, s]); let ghost a = [s, q]; assert([s, q]@ =~= pair(s, q)); assert([q, s]@ =~= pair(q, s)); }
## native::poseidon|||poseidon_merkle_tree_root
req: params.ok(), params.t >= 2, honest() ==> leaf@.len() > 0, leaf@.len() <= 0x400_0000_0000_0000
ens: leaf@.len() > 0, r == treeroot(*params, leaf@)
loops: range range
begin: reveal(treeroot); assert forall|z: u32| leaf@.len() >= 1 && z <= 64 && (leaf@.len() == 1 ==> z == 64) && (leaf@.len() > 1 ==> z < 64 && #[trigger] pow2((63 - z) as nat) <= leaf@.len() - 1 < pow2((64 - z) as nat)) implies 64 - z <= 58 && depth(leaf@.len()) == 64 - z && leaf@.len() <= pow2((64 - z) as nat) by { l_size(leaf@.len() as usize, z); } assert forall|k: usize| k <= 58 implies #[trigger] (1usize << k) == pow2(k as nat) by { l_shl(k); }
pre0: let ghost k = proof_sz as nat; let ghost s0 = state@; proof { assert(s0 =~= padz(leaf@, pow2(k))); l_shr(proof_sz, 0); }
inv0: invariant params.ok(), params.t >= 2, k == proof_sz, k <= 58, total_leaf_sz == (1usize << proof_sz), s0.len() == pow2(k), state@.len() == s0.len(), state@.take(pow2((k - j) as nat) as int) == tr(*params, s0, j as nat)
ent0: let ghost t0 = tr(*params, s0, j as nat); proof { l_trstep(*params, s0, k, j as nat); l_shr(proof_sz, (j + 1) as usize); l_trlen(*params, s0, k, 0); l_shl(proof_sz); if j > 0 { lemma_pow2_strictly_increases((k - j) as nat, k); } assert forall|x: int| 0 <= x < t0.len() implies #[trigger] state@[x] == t0[x] by { assert(state@.take(pow2((k - j) as nat) as int)[x] == t0[x]); } }
inv1: invariant params.ok(), params.t >= 2, k == proof_sz, k <= 58, j < k, state@.len() == pow2(k), pow2(k) <= usize::MAX / 4, t0.len() == pow2((k - j) as nat), t0.len() <= state@.len(), t0.len() == 2 * (total_leaf_sz >> (j + 1)), forall|x: int| 0 <= x < i ==> #[trigger] state@[x] == lvl(*params, t0)[x], forall|x: int| 2 * i <= x < t0.len() ==> #[trigger] state@[x] == t0[x]
ent1: proof { let a = t0[2 * i]; let b = t0[2 * i + 1]; assert([a, b]@ =~= pair(a, b)); assert(state@[2 * i] == a && state@[2 * i + 1] == b); }
post1: proof { assert(state@.take(pow2((k - j - 1) as nat) as int) =~= lvl(*params, t0)); assert(k - (j + 1) == k - j - 1); }
post0: proof { assert(pow2(0) == 1) by { lemma2_to64(); } l_trlen(*params, s0, k, k); assert(state@.take(1)[0] == state@[0]); }
