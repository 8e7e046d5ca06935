@area borsh
@include conv coll
@sub ic : < _ > deserialize (buf) => ic : vec_deserialize (buf)
@sub io :: Error :: new => vioerr
@sub io :: Error => IoErr
@sub < Fe > =>
@sub G1PointData < T > => G1PointData
@sub G2PointData < T > => G2PointData
@sub ProofData < T > => ProofData
@sub TruncatedVerifyingKeyData < T > => TruncatedVerifyingKeyData
@types helpers::groth16|type|G1PointData=#[derive(Clone,~Copy)] helpers::groth16|type|G2PointData=#[derive(Clone,~Copy)] helpers::groth16::prover|type|ProofData helpers::groth16::verifier|type|TruncatedVerifyingKeyData
%% raw
pub enum ErrorKind { InvalidData, InvalidInput, Other, UnexpectedEof }
pub fn vioerr(k: ErrorKind, m: &str) -> (r: IoErr) { IoErr { } }
/// TRUSTED rendering of a writer: it appends what it is given, or fails
pub struct VW { pub s: Ghost<Seq<u8>> }
/// the integer of little-endian bytes, and the k little-endian bytes of an integer
pub open spec fn leval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * leval(s.skip(1)) } }
pub open spec fn le_of(x: int, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_of(x / 256, (k - 1) as nat) } }
pub proof fn l_lepos(s: Seq<u8>) ensures leval(s) >= 0 decreases s.len() { if s.len() > 0 { l_lepos(s.skip(1)); } }
pub proof fn l_leof(s: Seq<u8>) ensures s == le_of(leval(s), s.len()) decreases s.len()
{ if s.len() > 0 { let t = s.skip(1); l_leof(t); l_lepos(t); lemma_fundamental_div_mod_converse(leval(s), 256, leval(t), s[0] as int); assert(s =~= seq![s[0]] + t); } else { assert(s =~= Seq::<u8>::empty()); } }
pub proof fn l_leof_all() ensures forall|s: Seq<u8>| s == le_of(#[trigger] leval(s), s.len()) { assert forall|s: Seq<u8>| s == le_of(#[trigger] leval(s), s.len()) by { l_leof(s); } }
pub proof fn l_leval(x: int, k: nat) requires 0 <= x < pow2(8 * k) ensures leval(le_of(x, k)) == x, le_of(x, k).len() == k decreases k
{ lemma2_to64(); if k > 0 { lemma_pow2_adds(8, (8 * (k - 1)) as nat); assert(8 * k == 8 + 8 * (k - 1)); assert(0 <= x / 256 < pow2((8 * (k - 1)) as nat)) by (nonlinear_arith) requires 0 <= x < 256 * pow2((8 * (k - 1)) as nat), pow2((8 * (k - 1)) as nat) > 0; l_leval(x / 256, (k - 1) as nat); let s = le_of(x, k); assert(s.skip(1) =~= le_of(x / 256, (k - 1) as nat)); lemma_fundamental_div_mod(x, 256); } }
// TRUSTED: the byte I/O of the field's integers
impl Repr {
  #[verifier::external_body] pub fn write_le(&self, w: &mut VW) -> (r: Result<(), IoErr>) ensures r.is_ok() ==> exists|b: Seq<u8>| final(w).s@ == old(w).s@ + b && b.len() == 8 * self.limbs().len() && #[trigger] leval(b) == self.rint() { unimplemented!() }
  #[verifier::external_body] pub fn read_le(&mut self, b: &mut &[u8]) -> (r: Result<(), IoErr>) ensures final(self).limbs().len() == old(self).limbs().len(), r.is_ok() == (old(b)@.len() >= 8 * old(self).limbs().len()), r.is_ok() ==> final(self).rint() == leval(old(b)@.take((8 * old(self).limbs().len()) as int)) && final(b)@ == old(b)@.skip((8 * old(self).limbs().len()) as int) { unimplemented!() }
}
pub open spec fn snum(a: Num) -> Seq<u8> { le_of(nint(a), nbytes()) }
pub open spec fn pnum(s: Seq<u8>) -> Option<(Num, Seq<u8>)> { if s.len() >= nbytes() && leval(s.take(nbytes() as int)) < pmod() { Some((fint(leval(s.take(nbytes() as int))), s.skip(nbytes() as int))) } else { None } }
pub open spec fn sg1(d: G1PointData) -> Seq<u8> { snum(d.0) + snum(d.1) }
pub open spec fn pg1(s: Seq<u8>) -> Option<(G1PointData, Seq<u8>)> { match pnum(s) { None => None, Some((x, t)) => match pnum(t) { None => None, Some((y, u)) => Some((G1PointData(x, y), u)) } } }
/// the first coordinate's components, real part first, then the second's
pub open spec fn sg2(d: G2PointData) -> Seq<u8> { snum(d.0.1) + snum(d.0.0) + snum(d.1.1) + snum(d.1.0) }
pub open spec fn pg2(s: Seq<u8>) -> Option<(G2PointData, Seq<u8>)> { match pnum(s) { None => None, Some((a, t)) => match pnum(t) { None => None, Some((b, u)) => match pnum(u) { None => None, Some((c, v)) => match pnum(v) { None => None, Some((d, w)) => Some((G2PointData((b, a), (d, c)), w)) } } } } }
pub open spec fn spr(d: ProofData) -> Seq<u8> { sg1(d.a) + sg2(d.b) + sg1(d.c) }
pub open spec fn ppr(s: Seq<u8>) -> Option<(ProofData, Seq<u8>)> { match pg1(s) { None => None, Some((a, t)) => match pg2(t) { None => None, Some((b, u)) => match pg1(u) { None => None, Some((c, v)) => Some((ProofData { a, b, c }, v)) } } } }
// TRUSTED: borsh's encoding of lists: the number of items in four bytes, then the items
pub open spec fn scat(v: Seq<G1PointData>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { sg1(v[0]) + scat(v.skip(1)) } }
pub open spec fn svec(v: Seq<G1PointData>) -> Seq<u8> { le_of(v.len() as int, 4) + scat(v) }
pub open spec fn pcat(s: Seq<u8>, n: nat) -> Option<(Seq<G1PointData>, Seq<u8>)> decreases n { if n == 0 { Some((Seq::empty(), s)) } else { match pg1(s) { None => None, Some((a, t)) => match pcat(t, (n - 1) as nat) { None => None, Some((v, u)) => Some((seq![a] + v, u)) } } } }
pub open spec fn pvec(s: Seq<u8>) -> Option<(Seq<G1PointData>, Seq<u8>)> { if s.len() < 4 { None } else { pcat(s.skip(4), leval(s.take(4)) as nat) } }
pub trait VecBorsh { spec fn items(&self) -> Seq<G1PointData>; fn serialize(&self, w: &mut VW) -> (r: Result<(), IoErr>) requires self.items().len() <= u32::MAX ensures r.is_ok() ==> final(w).s@ == old(w).s@ + svec(self.items()); }
impl VecBorsh for Vec<G1PointData> { open spec fn items(&self) -> Seq<G1PointData> { self@ } #[verifier::external_body] fn serialize(&self, w: &mut VW) -> Result<(), IoErr> { unimplemented!() } }
#[verifier::external_body]
pub fn vec_deserialize(b: &mut &[u8]) -> (r: Result<Vec<G1PointData>, IoErr>) ensures r.is_ok() == pvec(old(b)@).is_some(), r.is_ok() ==> pvec(old(b)@) == Some((r.unwrap()@, final(b)@)) { unimplemented!() }
pub open spec fn stv(d: TruncatedVerifyingKeyData) -> Seq<u8> { sg1(d.alpha_g1) + sg2(d.beta_g2) + sg2(d.gamma_g2) + sg2(d.delta_g2) + svec(d.ic@) }
pub open spec fn ptv(s: Seq<u8>) -> Option<(G1PointData, G2PointData, G2PointData, G2PointData, Seq<G1PointData>, Seq<u8>)> { match pg1(s) { None => None, Some((a, t)) => match pg2(t) { None => None, Some((b, u)) => match pg2(u) { None => None, Some((c, v)) => match pg2(v) { None => None, Some((d, w)) => match pvec(w) { None => None, Some((e, x)) => Some((a, b, c, d, e, x)) } } } } } }
/// what was written is read back
pub proof fn l_rt_num(a: Num, t: Seq<u8>) ensures pnum(snum(a) + t) == Some((a, t)), snum(a).len() == nbytes()
{ ax_nint(a); ax_nbits(); ax_pmod(); ax_nbytes(); let k = nbytes(); if nbits() < 8 * k { lemma_pow2_strictly_increases(nbits(), 8 * k); } l_leval(nint(a), k); let s = snum(a) + t; assert(s.take(k as int) =~= snum(a)); assert(s.skip(k as int) =~= t); }
pub proof fn l_rt_g1(d: G1PointData, t: Seq<u8>) ensures pg1(sg1(d) + t) == Some((d, t)) { l_rt_num(d.0, snum(d.1) + t); l_rt_num(d.1, t); assert(sg1(d) + t =~= snum(d.0) + (snum(d.1) + t)); }
pub proof fn l_rt_g2(d: G2PointData, t: Seq<u8>) ensures pg2(sg2(d) + t) == Some((d, t)) { let (a, b, e, f) = (snum(d.0.1), snum(d.0.0), snum(d.1.1), snum(d.1.0)); l_rt_num(d.0.1, b + (e + (f + t))); l_rt_num(d.0.0, e + (f + t)); l_rt_num(d.1.1, f + t); l_rt_num(d.1.0, t); assert(sg2(d) + t =~= a + (b + (e + (f + t)))); }
pub proof fn l_rt_pr(d: ProofData, t: Seq<u8>) ensures ppr(spr(d) + t) == Some((d, t)) { l_rt_g1(d.a, sg2(d.b) + (sg1(d.c) + t)); l_rt_g2(d.b, sg1(d.c) + t); l_rt_g1(d.c, t); assert(spr(d) + t =~= sg1(d.a) + (sg2(d.b) + (sg1(d.c) + t))); }
pub proof fn l_rt_cat(v: Seq<G1PointData>, t: Seq<u8>) ensures pcat(scat(v) + t, v.len()) == Some((v, t)) decreases v.len()
{ if v.len() > 0 { l_rt_g1(v[0], scat(v.skip(1)) + t); l_rt_cat(v.skip(1), t); assert(scat(v) + t =~= sg1(v[0]) + (scat(v.skip(1)) + t)); assert(seq![v[0]] + v.skip(1) =~= v); } else { assert(scat(v) + t =~= t); assert(v =~= Seq::<G1PointData>::empty()); } }
pub proof fn l_rt_vec(v: Seq<G1PointData>, t: Seq<u8>) requires v.len() <= u32::MAX ensures pvec(svec(v) + t) == Some((v, t))
{ lemma2_to64(); l_leval(v.len() as int, 4); l_rt_cat(v, t); let s = svec(v) + t; assert(s.take(4) =~= le_of(v.len() as int, 4)); assert(s.skip(4) =~= scat(v) + t); }
pub proof fn l_rt_tv(d: TruncatedVerifyingKeyData, t: Seq<u8>) requires d.ic@.len() <= u32::MAX ensures ptv(stv(d) + t) == Some((d.alpha_g1, d.beta_g2, d.gamma_g2, d.delta_g2, d.ic@, t))
{ hide(sg1); hide(sg2); hide(svec); hide(pg1); hide(pg2); hide(pvec); let (a, b, c, e, f) = (sg1(d.alpha_g1), sg2(d.beta_g2), sg2(d.gamma_g2), sg2(d.delta_g2), svec(d.ic@)); l_rt_g1(d.alpha_g1, b + (c + (e + (f + t)))); l_rt_g2(d.beta_g2, c + (e + (f + t))); l_rt_g2(d.gamma_g2, e + (f + t)); l_rt_g2(d.delta_g2, f + t); l_rt_vec(d.ic@, t); assert(stv(d) + t =~= a + (b + (c + (e + (f + t))))); }
## native::num|BorshSerialize|Num|serialize
inherent: yes
sig: fn serialize(&self, writer: &mut VW) -> (r: Result<(), IoErr>)
ens: r.is_ok() ==> final(writer).s@ == old(writer).s@ + snum(*self)
begin: l_conv(); l_leof_all();
## native::num|BorshDeserialize|Num|deserialize
inherent: yes
ens: r.is_ok() == pnum(old(buf)@).is_some(), r.is_ok() ==> pnum(old(buf)@) == Some((r.unwrap(), final(buf)@))
begin: l_conv();
## helpers::groth16::near|BorshSerialize|G1PointData<T>|serialize
inherent: yes
igen:
sig: fn serialize(&self, writer: &mut VW) -> (r: Result<(), IoErr>)
ens: r.is_ok() ==> final(writer).s@ =~= old(writer).s@ + sg1(*self)
## helpers::groth16::near|BorshDeserialize|G1PointData<T>|deserialize
inherent: yes
igen:
ens: r.is_ok() == pg1(old(buf)@).is_some(), r.is_ok() ==> pg1(old(buf)@) == Some((r.unwrap(), final(buf)@))
## helpers::groth16::near|BorshSerialize|G2PointData<T>|serialize
inherent: yes
igen:
sig: fn serialize(&self, writer: &mut VW) -> (r: Result<(), IoErr>)
ens: r.is_ok() ==> final(writer).s@ =~= old(writer).s@ + sg2(*self)
## helpers::groth16::near|BorshDeserialize|G2PointData<T>|deserialize
inherent: yes
igen:
ens: r.is_ok() == pg2(old(buf)@).is_some(), r.is_ok() ==> pg2(old(buf)@) == Some((r.unwrap(), final(buf)@))
## helpers::groth16::near|BorshSerialize|ProofData<T>|serialize
inherent: yes
igen:
sig: fn serialize(&self, writer: &mut VW) -> (r: Result<(), IoErr>)
ens: r.is_ok() ==> final(writer).s@ =~= old(writer).s@ + spr(*self)
## helpers::groth16::near|BorshDeserialize|ProofData<T>|deserialize
inherent: yes
igen:
ens: r.is_ok() == ppr(old(buf)@).is_some(), r.is_ok() ==> ppr(old(buf)@) == Some((r.unwrap(), final(buf)@))
## helpers::groth16::near|BorshSerialize|TruncatedVerifyingKeyData<T>|serialize
inherent: yes
igen:
req: self.ic@.len() <= u32::MAX
sig: fn serialize(&self, writer: &mut VW) -> (r: Result<(), IoErr>)
ens: r.is_ok() ==> final(writer).s@ =~= old(writer).s@ + stv(*self)
## helpers::groth16::near|BorshDeserialize|TruncatedVerifyingKeyData<T>|deserialize
inherent: yes
igen:
ens: r.is_ok() == ptv(old(buf)@).is_some(), r.is_ok() ==> ptv(old(buf)@) == Some((r.unwrap().alpha_g1, r.unwrap().beta_g2, r.unwrap().gamma_g2, r.unwrap().delta_g2, r.unwrap().ic@, final(buf)@))
