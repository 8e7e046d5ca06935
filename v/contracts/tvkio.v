@area tvkio
@include stdx2 coll
@sub < E :: G1Affine as CurveAffine > :: Compressed => G1Comp
@sub < E :: G2Affine as CurveAffine > :: Compressed => G2Comp
@sub (g1_repr . as_mut ()) => (& mut g1_repr)
@sub (g2_repr . as_mut ()) => (& mut g2_repr)
@sub io :: Error :: new => vioerr
@sub io :: ErrorKind => ErrorKind
@sub E :: G1Affine => G1A
@sub E :: G2Affine => G2A
@sub TruncatedVerifyingKey < E > => TruncatedVerifyingKey
@types helpers::groth16::verifier|type|TruncatedVerifyingKey
%% raw
#[derive(Debug)]
pub struct IoErr { }
pub enum ErrorKind { InvalidData, InvalidInput, Other, UnexpectedEof }
pub fn vioerr<M>(k: ErrorKind, m: M) -> (r: IoErr) { IoErr { } }
// TRUSTED: the pairing library's points and their compressed forms, of a fixed length, of which decompression accepts the compressed forms of the points of the subgroup
#[verifier::external_body]
#[derive(Copy)]
pub struct G1A { x: u8 }
impl Clone for G1A { #[verifier::external_body] fn clone(&self) -> (r: G1A) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct G2A { x: u8 }
#[verifier::external_body]
pub struct G1Comp { x: u8 }
#[verifier::external_body]
pub struct G2Comp { x: u8 }
#[derive(Debug)]
pub struct DecErr { }
pub uninterp spec fn c1len() -> nat;
pub uninterp spec fn c2len() -> nat;
pub axiom fn ax_clen() ensures c1len() > 0, c2len() > 0;
pub uninterp spec fn comp1(p: G1A) -> Seq<u8>;
pub uninterp spec fn comp2(p: G2A) -> Seq<u8>;
pub axiom fn ax_comp1(p: G1A) ensures comp1(p).len() == c1len();
pub axiom fn ax_comp2(p: G2A) ensures comp2(p).len() == c2len();
pub uninterp spec fn dec1(s: Seq<u8>) -> Option<G1A>;
pub uninterp spec fn dec2(s: Seq<u8>) -> Option<G2A>;
pub axiom fn ax_dec1(p: G1A) ensures dec1(comp1(p)) == Some(p);
pub axiom fn ax_dec2(p: G2A) ensures dec2(comp2(p)) == Some(p);
impl G1A { pub uninterp spec fn inf(&self) -> bool; #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == self.inf() { unimplemented!() }
  #[verifier::external_body] pub fn into_compressed(&self) -> (r: G1Comp) ensures r.v() == comp1(*self) { unimplemented!() } }
impl G2A { pub uninterp spec fn inf(&self) -> bool; #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == self.inf() { unimplemented!() }
  #[verifier::external_body] pub fn into_compressed(&self) -> (r: G2Comp) ensures r.v() == comp2(*self) { unimplemented!() } }
impl G1Comp { pub uninterp spec fn v(&self) -> Seq<u8>; #[verifier::external_body] pub fn empty() -> (r: G1Comp) { unimplemented!() }
  #[verifier::external_body] pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() }
  #[verifier::external_body] pub fn into_affine(&self) -> (r: Result<G1A, DecErr>) ensures r.is_ok() == dec1(self.v()).is_some(), r.is_ok() ==> dec1(self.v()) == Some(r.unwrap()) { unimplemented!() } }
impl G2Comp { pub uninterp spec fn v(&self) -> Seq<u8>; #[verifier::external_body] pub fn empty() -> (r: G2Comp) { unimplemented!() }
  #[verifier::external_body] pub fn vas_ref(&self) -> (r: &[u8]) ensures r@ == self.v() { unimplemented!() }
  #[verifier::external_body] pub fn into_affine(&self) -> (r: Result<G2A, DecErr>) ensures r.is_ok() == dec2(self.v()).is_some(), r.is_ok() ==> dec2(self.v()) == Some(r.unwrap()) { unimplemented!() } }
// TRUSTED: a writer appends or fails; a reader over a byte string fills the buffer exactly when enough bytes are left
pub struct VW { pub s: Ghost<Seq<u8>> }
impl VW { #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoErr>) ensures r.is_ok() ==> final(self).s@ == old(self).s@ + b@ { unimplemented!() } }
pub struct VR { pub s: Ghost<Seq<u8>> }
pub trait VBuf { spec fn bytes(&self) -> Seq<u8>; spec fn blen() -> nat; }
impl VBuf for G1Comp { open spec fn bytes(&self) -> Seq<u8> { self.v() } open spec fn blen() -> nat { c1len() } }
impl VBuf for G2Comp { open spec fn bytes(&self) -> Seq<u8> { self.v() } open spec fn blen() -> nat { c2len() } }
impl VR { #[verifier::external_body] pub fn read_exact<B: VBuf>(&mut self, b: &mut B) -> (r: Result<(), IoErr>) ensures r.is_ok() == (old(self).s@.len() >= B::blen()), r.is_ok() ==> final(b).bytes() == old(self).s@.take(B::blen() as int) && final(self).s@ == old(self).s@.skip(B::blen() as int) { unimplemented!() } }
pub open spec fn cat1(v: Seq<G1A>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { cat1(v, (n - 1) as nat) + comp1(v[n - 1]) } }
pub open spec fn stvk(k: TruncatedVerifyingKey) -> Seq<u8> { comp1(k.alpha_g1) + comp2(k.beta_g2) + comp2(k.gamma_g2) + comp2(k.delta_g2) + cat1(k.ic@, k.ic@.len()) }
/// one point, not the identity
pub open spec fn p1(s: Seq<u8>) -> Option<(G1A, Seq<u8>)> { if s.len() < c1len() { None } else { match dec1(s.take(c1len() as int)) { None => None, Some(p) => if p.inf() { None } else { Some((p, s.skip(c1len() as int))) } } } }
pub open spec fn p2(s: Seq<u8>) -> Option<(G2A, Seq<u8>)> { if s.len() < c2len() { None } else { match dec2(s.take(c2len() as int)) { None => None, Some(p) => if p.inf() { None } else { Some((p, s.skip(c2len() as int))) } } } }
/// points up to the end; less than a point's worth of trailing bytes is ignored
pub open spec fn pall(s: Seq<u8>) -> Option<Seq<G1A>> decreases s.len() when c1len() > 0 { if s.len() < c1len() { Some(Seq::empty()) } else { match dec1(s.take(c1len() as int)) { None => None, Some(p) => if p.inf() { None } else { match pall(s.skip(c1len() as int)) { None => None, Some(v) => Some(seq![p] + v) } } } } }
pub open spec fn ptvk(s: Seq<u8>) -> Option<(G1A, G2A, G2A, G2A, Seq<G1A>)> { match p1(s) { None => None, Some((a, t)) => match p2(t) { None => None, Some((b, u)) => match p2(u) { None => None, Some((c, v)) => match p2(v) { None => None, Some((d, w)) => match pall(w) { None => None, Some(e) => Some((a, b, c, d, e)) } } } } } }
pub proof fn l_p1(p: G1A, t: Seq<u8>) requires !p.inf() ensures p1(comp1(p) + t) == Some((p, t)) { ax_comp1(p); ax_dec1(p); let s = comp1(p) + t; assert(s.take(c1len() as int) =~= comp1(p)); assert(s.skip(c1len() as int) =~= t); }
pub proof fn l_p2(p: G2A, t: Seq<u8>) requires !p.inf() ensures p2(comp2(p) + t) == Some((p, t)) { ax_comp2(p); ax_dec2(p); let s = comp2(p) + t; assert(s.take(c2len() as int) =~= comp2(p)); assert(s.skip(c2len() as int) =~= t); }
pub proof fn l_pall(v: Seq<G1A>, n: nat, t: Seq<u8>, w: Seq<G1A>) requires n <= v.len(), forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i]).inf(), pall(t) == Some(w) ensures pall(cat1(v, n) + t) == Some(v.take(n as int) + w) decreases n
{ ax_clen(); if n > 0 { let m = (n - 1) as nat; let x = v[n - 1]; l_p1(x, t); ax_comp1(x); let t2 = comp1(x) + t; assert(t2.take(c1len() as int) =~= comp1(x)); assert(t2.skip(c1len() as int) =~= t); ax_dec1(x); l_pall(v, m, t2, seq![x] + w); assert(cat1(v, n) + t =~= cat1(v, m) + t2); assert(v.take(m as int) + (seq![x] + w) =~= v.take(n as int) + w); } else { assert(cat1(v, n) + t =~= t); assert(v.take(0) + w =~= w); } }
/// what was written is read back, if no part is the identity
pub proof fn l_rt_tvk(k: TruncatedVerifyingKey) requires !k.alpha_g1.inf(), !k.beta_g2.inf(), !k.gamma_g2.inf(), !k.delta_g2.inf(), forall|i: int| 0 <= i < k.ic@.len() ==> !(#[trigger] k.ic@[i]).inf() ensures ptvk(stvk(k)) == Some((k.alpha_g1, k.beta_g2, k.gamma_g2, k.delta_g2, k.ic@))
{ hide(p1); hide(p2); ax_clen(); let (a, b, c, d, e) = (comp1(k.alpha_g1), comp2(k.beta_g2), comp2(k.gamma_g2), comp2(k.delta_g2), cat1(k.ic@, k.ic@.len())); l_p1(k.alpha_g1, b + (c + (d + e))); l_p2(k.beta_g2, c + (d + e)); l_p2(k.gamma_g2, d + e); l_p2(k.delta_g2, e); assert(pall(Seq::<u8>::empty()) == Some(Seq::<G1A>::empty())); l_pall(k.ic@, k.ic@.len(), Seq::empty(), Seq::empty()); assert(e + Seq::<u8>::empty() =~= e); assert(k.ic@.take(k.ic@.len() as int) + Seq::<G1A>::empty() =~= k.ic@); assert(stvk(k) =~= a + (b + (c + (d + e)))); }
## helpers::groth16::verifier||TruncatedVerifyingKey<E>|write
out: Result<(), IoErr>
sig: fn write(&self, writer: &mut VW) -> (r: Result<(), IoErr>)
loops: iter
ens: r.is_ok() ==> final(writer).s@ =~= old(writer).s@ + stvk(*self)
pre0: let ghost s0 = writer.s@;
inv0: invariant __n0 == self.ic@.len(), __s1@ == self.ic@, __i0 <= __n0, writer.s@ =~= s0 + cat1(self.ic@, __i0 as nat) decreases __n0 - __i0
## helpers::groth16::verifier||TruncatedVerifyingKey<E>|read
out: Result<TruncatedVerifyingKey, IoErr>
sig: fn read(reader: &mut VR) -> (r: Result<TruncatedVerifyingKey, IoErr>)
loops: while
ens: r.is_ok() == ptvk(old(reader).s@).is_some(), r.is_ok() ==> ptvk(old(reader).s@) == Some((r.unwrap().alpha_g1, r.unwrap().beta_g2, r.unwrap().gamma_g2, r.unwrap().delta_g2, r.unwrap().ic@))
begin: ax_clen();
subst: let mut reader = reader ; => let ghost r0 = reader.s@ ;
pre0: let ghost w0 = reader.s@; proof { assert(ic@ + pall(w0).unwrap() =~= pall(w0).unwrap()); }
inv0: invariant c1len() > 0, r0 == old(reader).s@, ptvk(r0).is_some() == pall(w0).is_some(), pall(w0).is_some() ==> ptvk(r0) == Some((alpha_g1, beta_g2, gamma_g2, delta_g2, pall(w0).unwrap())), pall(w0).is_some() == pall(reader.s@).is_some(), pall(w0).is_some() ==> pall(w0).unwrap() =~= ic@ + pall(reader.s@).unwrap() decreases reader.s@.len()
