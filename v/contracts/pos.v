@area pos
@include conv native_num
@types native::poseidon|type|PoseidonParams
%% raw
impl PoseidonParams {
  /// as built by PoseidonParams::new
  pub open spec fn ok(&self) -> bool { self.t > 0 && self.f + self.p <= usize::MAX && self.c@.len() == self.f + self.p && self.m@.len() == self.t && forall|i: int| 0 <= i < self.t ==> (#[trigger] self.m@[i])@.len() == self.t }
  pub open spec fn mat(&self) -> Seq<Seq<Num>> { Seq::new(self.t as nat, |i: int| self.m@[i]@) }
}
pub open spec fn arks(s: Seq<Num>, c: Num) -> Seq<Num> { Seq::new(s.len(), |i: int| fadd(s[i], c)) }
pub open spec fn pow5(a: Num) -> Num { fmul(fmul(fmul(a, a), fmul(a, a)), a) }
/// the first n terms of a row times the state
pub open spec fn dot(r: Seq<Num>, s: Seq<Num>, n: nat) -> Num decreases n { if n == 0 { f0() } else { fadd(dot(r, s, (n - 1) as nat), fmul(r[n - 1], s[n - 1])) } }
pub open spec fn mixs(s: Seq<Num>, m: Seq<Seq<Num>>) -> Seq<Num> { Seq::new(s.len(), |i: int| dot(m[i], s, s.len())) }
pub open spec fn allpow(s: Seq<Num>) -> Seq<Num> { Seq::new(s.len(), |i: int| pow5(s[i])) }
pub open spec fn subs(P: PoseidonParams, s: Seq<Num>, i: int) -> Seq<Num> { if i < P.f / 2 || i >= P.f / 2 + P.p { allpow(s) } else { s.update(0, pow5(s[0])) } }
pub open spec fn rnd(P: PoseidonParams, s: Seq<Num>, i: int) -> Seq<Num> { mixs(subs(P, arks(s, P.c@[i]), i), P.mat()) }
pub open spec fn perm(P: PoseidonParams, s: Seq<Num>, n: nat) -> Seq<Num> decreases n { if n == 0 { s } else { rnd(P, perm(P, s, (n - 1) as nat), n - 1) } }
pub open spec fn padz(s: Seq<Num>, t: nat) -> Seq<Num> { Seq::new(t, |i: int| if i < s.len() { s[i] } else { f0() }) }
/// the specified hash of a list of inputs
#[verifier::opaque]
pub open spec fn pos(P: PoseidonParams, s: Seq<Num>) -> Num { perm(P, padz(s, P.t as nat), (P.f + P.p) as nat)[0] }
pub proof fn l_permstep(P: PoseidonParams, s: Seq<Num>, n: nat) ensures perm(P, s, n + 1) == rnd(P, perm(P, s, n), n as int), perm(P, s, 0) == s { }
pub proof fn l_permlen(P: PoseidonParams, s: Seq<Num>, n: nat) ensures perm(P, s, n).len() == s.len() decreases n { if n > 0 { l_permlen(P, s, (n - 1) as nat); } }
pub proof fn l_hf(n: usize) ensures n >> 1 == n / 2 { assert(n >> 1 == n / 2) by (bit_vector); }
## native::poseidon|||ark
ens: final(state)@ == arks(old(state)@, c)
loops: iter
pre0: let ghost s0 = state@;
inv0: invariant s0 == old(state)@, __n0 == s0.len(), __i0 <= __n0, state@.len() == s0.len(), forall|j: int| 0 <= j < __i0 ==> #[trigger] state@[j] == fadd(s0[j], c), forall|j: int| __i0 <= j < s0.len() ==> #[trigger] state@[j] == s0[j] decreases __n0 - __i0
post0: proof { assert(state@ =~= arks(s0, c)); }
## native::poseidon|||sigma
ens: r == pow5(a)
## native::poseidon|||mix
req: params.ok(), old(state)@.len() == params.t
ens: final(state)@ == mixs(old(state)@, params.mat())
loops: range range
inv0: invariant params.ok(), statelen == params.t, state@ == old(state)@, state@.len() == params.t, new_state@.len() == statelen, forall|k: int| i <= k < statelen ==> #[trigger] new_state@[k] == f0(), forall|k: int| 0 <= k < i ==> #[trigger] new_state@[k] == dot(params.m@[k]@, state@, statelen as nat)
inv1: invariant i < statelen, params.ok(), statelen == params.t, state@ == old(state)@, state@.len() == params.t, new_state@.len() == statelen, forall|k: int| i < k < statelen ==> #[trigger] new_state@[k] == f0(), forall|k: int| 0 <= k < i ==> #[trigger] new_state@[k] == dot(params.m@[k]@, state@, statelen as nat), new_state@[i as int] == dot(params.m@[i as int]@, state@, j as nat)
post0: proof { assert(new_state@ =~= mixs(old(state)@, params.mat())); }
## native::poseidon|||poseidon
req: params.ok(), honest() ==> 0 < inputs@.len() <= params.t
ens: 0 < inputs@.len() <= params.t, r == pos(*params, inputs@)
loops: range range
begin: reveal(pos); l_hf(params.f);
pre0: let ghost s0 = state@; proof { assert(s0 =~= padz(inputs@, params.t as nat)); }
inv0: invariant params.ok(), half_f == params.f / 2, s0.len() == params.t, state@ == perm(*params, s0, i as nat)
ent0: let ghost st = state@; proof { l_permlen(*params, s0, i as nat); l_permstep(*params, s0, i as nat); } let ghost ak = arks(st, params.c@[i as int]);
inv1: invariant params.ok(), ak.len() == params.t, state@.len() == params.t, forall|k: int| 0 <= k < j ==> #[trigger] state@[k] == pow5(ak[k]), forall|k: int| j <= k < params.t ==> #[trigger] state@[k] == ak[k]
post1: proof { assert(state@ =~= allpow(ak)); }
post0: proof { l_permlen(*params, s0, (params.f + params.p) as nat); }
## native::poseidon|||poseidon_with_salt
req: params.ok(), honest() ==> 0 < inputs@.len() < params.t
ens: 0 < inputs@.len() < params.t, r == pos(*params, inputs@.push(seednum(seed@)))
