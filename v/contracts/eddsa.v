@area eddsa
@include smul pos
%% raw
pub uninterp spec fn seed_eddsa() -> Seq<u8>;
#[verifier::external_body]
pub exec const SEED_EDDSA_POSEIDON: &'static [u8] ensures SEED_EDDSA_POSEIDON@ == seed_eddsa() { b"" }
// TRUSTED: the scalar field is the field of integers modulo the order; its conversions are the same generic code as the verified ones of Num
pub uninterp spec fn snbytes() -> nat;
impl NumS {
  #[verifier::external_body] pub fn from_binary_be(b: &[u8]) -> (r: NumS) ensures sint(r) == beval(b@) % order() { unimplemented!() }
  #[verifier::external_body] pub fn into_binary_be(&self) -> (r: Vec<u8>) ensures r@ == be_of(sint(*self), snbytes()) { unimplemented!() }
}
impl AddSpecImpl<NumS> for NumS { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: NumS) -> bool { true } open spec fn add_spec(self, o: NumS) -> NumS { arbitrary() } }
impl Add<NumS> for NumS { type Output = NumS; #[verifier::external_body] fn add(self, o: NumS) -> (r: NumS) ensures sint(r) == (sint(self) + sint(o)) % order() { unimplemented!() } }
impl MulSpecImpl<NumS> for NumS { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: NumS) -> bool { true } open spec fn mul_spec(self, o: NumS) -> NumS { arbitrary() } }
impl Mul<NumS> for NumS { type Output = NumS; #[verifier::external_body] fn mul(self, o: NumS) -> (r: NumS) ensures sint(r) == (sint(self) * sint(o)) % order() { unimplemented!() } }
/// the nonce: the personalised hash of the secret key and the message
pub open spec fn nonce(sk: NumS, m: Num) -> int { beval(phash(32, be_of(sint(sk), snbytes()) + be_of(nint(m), nbytes()))) % order() }
/// the salted hash of commitment, key and message
pub open spec fn hram(P: PoseidonParams, r: Num, a: Num, m: Num) -> Num { pos(P, seq![r, a, m, seednum(seed_eddsa())]) }
/// the signature equation over the decompressed key and commitment
pub open spec fn sigeq(P: PoseidonParams, s: nat, pa: EdwardsPoint, pr: EdwardsPoint, m: Num) -> bool { smul(s, cg()) == eadd(smul(nint(hram(P, pr.x, pa.x, m)) as nat, pa), pr) }
pub open spec fn sigok(P: PoseidonParams, s: nat, r: Num, a: Num, m: Num) -> bool { exists|pa: EdwardsPoint, pr: EdwardsPoint| #![trigger insub(pa), insub(pr)] insub(pa) && insub(pr) && pa.x == a && pr.x == r && sigeq(P, s, pa, pr, m) }
pub open spec fn nosub(x: Num) -> bool { forall|p: EdwardsPoint| p.x == x ==> !insub(p) }
pub proof fn l_sigeq(P: PoseidonParams, s: nat, pa: EdwardsPoint, pr: EdwardsPoint, m: Num) requires insub(pa), insub(pr) ensures sigok(P, s, pr.x, pa.x, m) == sigeq(P, s, pa, pr, m), smul(nint(hram(P, pr.x, pa.x, m)) as nat, pa) == smul((nint(hram(P, pr.x, pa.x, m)) % order()) as nat, pa)
{ let h = nint(hram(P, pr.x, pa.x, m)); ax_nint(hram(P, pr.x, pa.x, m)); l_smul_mod(h as nat, pa);
  if sigok(P, s, pr.x, pa.x, m) { let (qa, qr) = choose|qa: EdwardsPoint, qr: EdwardsPoint| #![trigger insub(qa), insub(qr)] insub(qa) && insub(qr) && qa.x == pa.x && qr.x == pr.x && sigeq(P, s, qa, qr, m); l_subx(pa, qa); l_subx(pr, qr); } }
/// signatures made by the specified equation satisfy it
pub proof fn l_signed(P: PoseidonParams, sk: int, rho: int, m: Num, s: int)
  requires 0 <= sk, 0 <= rho, ({ let r = smul(rho as nat, cg()).x; let a = smul(sk as nat, cg()).x; s == (rho + ((nint(hram(P, r, a, m)) % order()) * sk) % order()) % order() })
  ensures ({ let r = smul(rho as nat, cg()).x; let a = smul(sk as nat, cg()).x; 0 <= s && sigok(P, s as nat, r, a, m) })
{ ax_gen(); ax_order(); let o = order(); let pr = smul(rho as nat, cg()); let pa = smul(sk as nat, cg()); l_insub_smul(rho as nat, cg()); l_insub_smul(sk as nat, cg()); let hh = nint(hram(P, pr.x, pa.x, m)); ax_nint(hram(P, pr.x, pa.x, m)); let h = hh % o; lemma_mod_bound(hh, o); let k = h * sk; assert(k >= 0) by (nonlinear_arith) requires h >= 0, sk >= 0, k == h * sk;
  lemma_mod_bound(k, o); lemma_mod_bound(rho + k % o, o); l_smul_mod((rho + k % o) as nat, cg()); l_smul_mod(k as nat, cg()); l_smul_add((k % o) as nat, rho as nat, cg()); l_smul_mul(h as nat, sk as nat, cg()); l_sigeq(P, s as nat, pa, pr, m); }
pub proof fn l_sg(sk: NumS, m: Num) ensures insub(cg()), 0 <= sint(sk), 0 <= nonce(sk, m) { ax_gen(); ax_order(); ax_sint(sk); lemma_mod_bound(beval(phash(32, be_of(sint(sk), snbytes()) + be_of(nint(m), nbytes()))), order()); }
## native::num||Num|into_other
ens: sint(r) == nint(*self) % order()
subst: Num :: from_binary_be => NumS :: from_binary_be
out: NumS
begin: l_conv();
## native::eddsaposeidon|||hash_r
ens: sint(r) == nonce(sk, m)
begin: l_phash();
## native::eddsaposeidon|||hash_ram
req: poseidon_params.ok(), honest() ==> poseidon_params.t >= 4
ret: h
ens: poseidon_params.t >= 4, h == hram(*poseidon_params, r, a, m)
begin: assert forall|s: [Num; 3], k: Num| s[0] == r && s[1] == a && s[2] == m implies #[trigger] s@.push(k) == seq![r, a, m, k] by { assert(s@.push(k) =~= seq![r, a, m, k]); }
## native::eddsaposeidon|||eddsaposeidon_sign
req: poseidon_params.ok(), honest() ==> poseidon_params.t >= 4
ens: ({ let R = smul(nonce(sk, m) as nat, cg()).x; r.1 == R && sigok(*poseidon_params, sint(r.0) as nat, R, smul(sint(sk) as nat, cg()).x, m) })
begin: l_sg(sk, m);
tail: l_signed(*poseidon_params, sint(sk), nonce(sk, m), m, sint($r.0));
## native::eddsaposeidon|||eddsaposeidon_verify
req: poseidon_params.ok(), honest() ==> poseidon_params.t >= 4
ret: ok
ens: ok == sigok(*poseidon_params, sint(s) as nat, r, a, m)
begin: assert forall|pa: EdwardsPoint, pr: EdwardsPoint| #![trigger insub(pa), insub(pr)] insub(pa) && insub(pr) && pa.x == a && pr.x == r implies sigok(*poseidon_params, sint(s) as nat, r, a, m) == sigeq(*poseidon_params, sint(s) as nat, pa, pr, m) && smul(nint(hram(*poseidon_params, r, a, m)) as nat, pa) == smul((nint(hram(*poseidon_params, r, a, m)) % order()) as nat, pa) by { l_sigeq(*poseidon_params, sint(s) as nat, pa, pr, m); } ax_gen(); assert forall|p: EdwardsPoint| insub(p) implies #[trigger] oncurve(p) by { }
