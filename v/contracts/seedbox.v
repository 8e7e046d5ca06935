@area seedbox
@include conv
@types core::seedbox|type|SeedboxBlake2
%% raw
/// the unkeyed hash of blake2_rfc, no personalisation
impl Blake2s { pub fn new(n: usize) -> (r: Blake2s) ensures r.n == n, r.k@ == Seq::<u8>::empty(), r.s@ == Seq::<u8>::empty(), r.p@ == Seq::<u8>::empty(), r.d@ == Seq::<u8>::empty() { Blake2s { n, k: Ghost(Seq::empty()), s: Ghost(Seq::empty()), p: Ghost(Seq::empty()), d: Ghost(Seq::empty()) } } }
pub axiom fn ax_blake_len(n: int, k: Seq<u8>, s: Seq<u8>, p: Seq<u8>, d: Seq<u8>) ensures blake(n, k, s, p, d).len() == n;
pub open spec fn digest(s: Seq<u8>) -> Seq<u8> { blake(32, Seq::empty(), Seq::empty(), Seq::empty(), s) }
/// the k little-endian bytes of an integer
pub open spec fn le_of(x: int, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le_of(x / 256, (k - 1) as nat) } }
pub open spec fn leval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * leval(s.skip(1)) } }
/// block i of the stream, word k of the stream: a function of the salt alone
pub open spec fn block(salt: Option<Seq<u8>>, i: int) -> Seq<u8> { phash(32, le_of(i, 8) + (if salt.is_some() { salt.unwrap() } else { Seq::empty() })) }
pub open spec fn word(salt: Option<Seq<u8>>, k: int) -> int { leval(block(salt, k / 8).subrange(4 * (k % 8), 4 * (k % 8) + 4)) }
impl SeedboxBlake2 {
  pub open spec fn sl(&self) -> Option<Seq<u8>> { if self.salt.is_some() { Some(self.salt.unwrap()@) } else { None } }
  /// words handed out so far
  pub open spec fn at(&self) -> int { 8 * self.n_iter + self.n_limb - 8 }
  pub open spec fn wf(&self) -> bool { self.n_limb <= 8 && (self.n_limb < 8 ==> self.n_iter >= 1 && self.buff@ == block(self.sl(), self.n_iter - 1)) }
}
// TRUSTED renderings of array and byte order operations
#[verifier::external_body]
pub fn vcopy_arr<A: Clone, const N: usize>(d: &mut [A; N], s: &[A]) requires honest() ==> N == s@.len() ensures N == s@.len(), final(d)@ == s@ { d.clone_from_slice(s) }
#[verifier::external_body]
pub fn vwrite_u64_le(d: &mut [u8; 8], x: u64) -> (r: Result<(), IoErr>) ensures r.is_ok(), final(d)@ == le_of(x as int, 8) { unimplemented!() }
#[verifier::external_body]
pub fn vread_u32_le(d: &[u8]) -> (r: Result<u32, IoErr>) ensures r.is_ok() == (d@.len() >= 4), d@.len() == 4 ==> r.unwrap() == leval(d@) { unimplemented!() }
impl VUnwrap<u32> for Result<u32, IoErr> { open spec fn vsome(&self) -> bool { self.is_ok() } open spec fn vval(&self) -> u32 { self.unwrap() } fn vunwrap(self) -> (r: u32) { match self { Ok(x) => x, Err(_) => reject() } } }
pub proof fn l_sb() ensures forall|s: Seq<u8>| #[trigger] (s + Seq::<u8>::empty()) == s, forall|n: int, k: Seq<u8>, s: Seq<u8>, p: Seq<u8>, d: Seq<u8>| (#[trigger] blake(n, k, s, p, d)).len() == n
{ l_phash(); assert forall|s: Seq<u8>| #[trigger] (s + Seq::<u8>::empty()) == s by { assert(s + Seq::<u8>::empty() =~= s); } assert forall|n: int, k: Seq<u8>, s: Seq<u8>, p: Seq<u8>, d: Seq<u8>| (#[trigger] blake(n, k, s, p, d)).len() == n by { ax_blake_len(n, k, s, p, d); } }
pub proof fn l_word(salt: Option<Seq<u8>>, i: int, j: int) requires 0 <= j < 8 ensures word(salt, 8 * i + j) == leval(block(salt, i).subrange(4 * j, 4 * j + 4)) { lemma_fundamental_div_mod_converse(8 * i + j, 8, i, j); }
## core::seedbox||SeedboxBlake2|new
ens: r.wf(), r.sl() == None::<Seq<u8>>, r.at() == 0
## core::seedbox||SeedboxBlake2|new_with_salt
ens: r.wf(), r.sl() == Some(digest(salt@)), r.at() == 0
subst: vcopy_all (& mut buff , => vcopy_arr (& mut buff ,
begin: l_sb(); l_phash();
## core::seedbox|Rng|SeedboxBlake2|next_u32
inherent: 1
req: old(self).wf(), old(self).n_iter < u64::MAX
ens: final(self).wf(), final(self).sl() == old(self).sl(), final(self).at() == old(self).at() + 1, r == word(old(self).sl(), old(self).at())
subst: vcopy_all (self . buff . as_mut () , => vcopy_arr (& mut self . buff ,
 n_iter_bin . as_mut () . write_u64 :: < LittleEndian > ( => vwrite_u64_le ( & mut n_iter_bin ,
 (vslice_range (& self . buff , self . n_limb * 4 , (self . n_limb + 1) * 4)) . read_u32 :: < LittleEndian > () => vread_u32_le (vslice_range (& self . buff , self . n_limb * 4 , (self . n_limb + 1) * 4))
begin: l_sb(); l_phash(); assert forall|i: int, j: int| 0 <= j < 8 implies #[trigger] word(self.sl(), 8 * i + j) == leval(block(self.sl(), i).subrange(4 * j, 4 * j + 4)) by { l_word(self.sl(), i, j); } l_word(self.sl(), self.n_iter as int, 0); if self.n_limb < 8 { l_word(self.sl(), self.n_iter - 1, self.n_limb as int); }
