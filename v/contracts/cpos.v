@area cpos
@include pos num
@use cposax
%% raw
pub proof fn l_evlc<'a>(s: Seq<CNum<'a>>) ensures evl(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] evl(s)[i] == s[i].ev() { }
pub broadcast proof fn l_evlp<'a>(s: Seq<CNum<'a>>, x: CNum<'a>) ensures #[trigger] evl(s.push(x)) == evl(s).push(x.ev()) { assert(evl(s.push(x)) =~= evl(s).push(x.ev())); }
pub broadcast proof fn l_evsb<'a>(c: CNum<'a>) ensures #[trigger] c.evs() == sq1(c.ev()) { }
pub broadcast group cposax { l_evlu, l_evlp }
pub broadcast proof fn l_evlu<'a>(s: Seq<CNum<'a>>, i: int, x: CNum<'a>) requires 0 <= i < s.len() ensures #[trigger] evl(s.update(i, x)) == evl(s).update(i, x.ev()), wfl(s) && x.wf() ==> wfl(s.update(i, x)) { assert(evl(s.update(i, x)) =~= evl(s).update(i, x.ev())); }
pub proof fn l_pow5(a: Num) ensures fmul(fmul(fmul(a, a), fmul(a, a)), a) == pow5(a) { }
pub proof fn l_evsn<'a>(c: &CNum<'a>, v: Num) requires c.evs() == CNum::<'a>::vnums(v) ensures c.ev() == v { broadcast use fieldax; assert(sq1(c.ev())[0] == c.ev()); assert(sq1(v)[0] == v); }
## circuit::poseidon|||ark
rename: c_ark
req: wfl(old(state)@)
ens: wfl(final(state)@), evl(final(state)@) == arks(evl(old(state)@), c)
loops: iter
pre0: let ghost s0 = state@;
inv0: invariant s0 == old(state)@, wfl(s0), __n0 == s0.len(), __i0 <= __n0, state@.len() == s0.len(), wfl(state@), forall|j: int| 0 <= j < __i0 ==> (#[trigger] state@[j]).ev() == fadd(s0[j].ev(), c), forall|j: int| __i0 <= j < s0.len() ==> #[trigger] state@[j] == s0[j] decreases __n0 - __i0
post0: proof { assert(evl(state@) =~= arks(evl(s0), c)); }
## circuit::poseidon|||sigma
rename: c_sigma
req: a.wf()
ens: r.wf(), r.ev() == pow5(a.ev())
## circuit::poseidon|||mix
rename: c_mix
req: params.ok(), wfl(old(state)@), old(state)@.len() == params.t
ens: wfl(final(state)@), evl(final(state)@) == mixs(evl(old(state)@), params.mat())
loops: range range
inv0: invariant params.ok(), statelen == params.t, state@ == old(state)@, wfl(state@), wfl(new_state@), state@.len() == params.t, new_state@.len() == statelen, forall|k: int| i <= k < statelen ==> (#[trigger] new_state@[k]).ev() == f0(), forall|k: int| 0 <= k < i ==> (#[trigger] new_state@[k]).ev() == dot(params.m@[k]@, evl(state@), statelen as nat)
inv1: invariant i < statelen, params.ok(), statelen == params.t, state@ == old(state)@, wfl(state@), wfl(new_state@), state@.len() == params.t, new_state@.len() == statelen, forall|k: int| i < k < statelen ==> (#[trigger] new_state@[k]).ev() == f0(), forall|k: int| 0 <= k < i ==> (#[trigger] new_state@[k]).ev() == dot(params.m@[k]@, evl(state@), statelen as nat), new_state@[i as int].ev() == dot(params.m@[i as int]@, evl(state@), j as nat)
post0: proof { assert(evl(new_state@) =~= mixs(evl(old(state)@), params.mat())); }
## circuit::poseidon|||c_poseidon
req: params.ok(), wfl(inputs@), honest() ==> 0 < inputs@.len() <= params.t
ens: 0 < inputs@.len() <= params.t, r.wf(), r.ev() == pos(*params, evl(inputs@))
loops: range range
subst: ark (& mut state => c_ark (& mut state
 sigma (& state => c_sigma (& state
 mix (& mut state => c_mix (& mut state
begin: reveal(pos); l_hf(params.f);
pre0: let ghost s0 = evl(state@); proof { assert(s0 =~= padz(evl(inputs@), params.t as nat)); }
inv0: invariant params.ok(), half_f == params.f / 2, s0.len() == params.t, wfl(state@), state@.len() == params.t, evl(state@) == perm(*params, s0, i as nat)
ent0: let ghost st = evl(state@); proof { l_permlen(*params, s0, i as nat); l_permstep(*params, s0, i as nat); } let ghost ak = arks(st, params.c@[i as int]); proof { assert forall|q: Seq<CNum<'a>>| q.len() == ak.len() && q[0].ev() == pow5(ak[0]) && (forall|k: int| 1 <= k < q.len() ==> (#[trigger] q[k]).ev() == ak[k]) implies #[trigger] evl(q) == ak.update(0, pow5(ak[0])) by { assert(evl(q) =~= ak.update(0, pow5(ak[0]))); }
  assert forall|q: Seq<CNum<'a>>| #[trigger] evl(q) == ak implies q.len() == ak.len() && forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).ev() == ak[k] by { l_evlc(q); assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).ev() == ak[k] by { assert(evl(q)[k] == ak[k]); } } }
pre1: proof { l_evlc(state@); }
inv1: invariant params.ok(), ak.len() == params.t, state@.len() == params.t, wfl(state@), forall|k: int| 0 <= k < j ==> (#[trigger] state@[k]).ev() == pow5(ak[k]), forall|k: int| j <= k < params.t ==> (#[trigger] state@[k]).ev() == ak[k]
post1: proof { assert(evl(state@) =~= allpow(ak)); }
end0: proof { l_evlc(state@); }
post0: proof { l_permlen(*params, s0, (params.f + params.p) as nat); l_evlc(state@); }
## circuit::poseidon|||c_poseidon_with_salt
req: params.ok(), wfl(inputs@), honest() ==> 0 < inputs@.len() < params.t
ens: 0 < inputs@.len() < params.t, r.wf(), r.ev() == pos(*params, evl(inputs@).push(seednum(seed@)))
begin: assert forall|c: CNum<'a>, v: Num| #[trigger] c.evs() == #[trigger] CNum::<'a>::vnums(v) implies c.ev() == v by { l_evsn(&c, v); }
