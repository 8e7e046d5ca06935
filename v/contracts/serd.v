@area serd
@include conv
@sub < String as Deserialize > :: deserialize => de_str
@sub de :: Error :: custom => vcustom
@sub Serialize :: serialize => ser_str
@sub Into :: < BigUint > :: into => Num :: into_biguint
%% raw
// TRUSTED: decimal text of big integers (num_bigint), and the string a (de)serializer is given or gives
pub uninterp spec fn dec(n: nat) -> Seq<char>;
pub uninterp spec fn undec(s: Seq<char>) -> Option<nat>;
pub axiom fn ax_dec(n: nat) ensures undec(dec(n)) == Some(n);
#[derive(Debug)]
pub struct ParseErr { }
#[derive(Debug)]
pub struct SErr { }
pub fn vcustom(m: &str) -> (r: SErr) { SErr { } }
impl BigUint {
  #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == dec(self.v()) { unimplemented!() }
  #[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<BigUint, ParseErr>) ensures r.is_ok() == undec(s@).is_some(), r.is_ok() ==> undec(s@) == Some(r.unwrap().v()) { unimplemented!() }
}
impl PartialEqSpecImpl for BigUint { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BigUint) -> bool { self.v() == o.v() } }
impl PartialEq for BigUint { #[verifier::external_body] fn eq(&self, o: &BigUint) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for BigUint { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<Ordering> { if self.v() < o.v() { Some(Ordering::Less) } else if self.v() > o.v() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl PartialOrd for BigUint { #[verifier::external_body] fn partial_cmp(&self, o: &BigUint) -> Option<Ordering> { unimplemented!() } }
pub struct VSer { }
pub struct VSOk { pub text: Ghost<Seq<char>> }
pub struct VDe { pub text: Ghost<Option<Seq<char>>> }
#[verifier::external_body]
pub fn ser_str(s: &String, serializer: VSer) -> (r: Result<VSOk, SErr>) ensures r.is_ok() ==> r.unwrap().text@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn de_str(d: VDe) -> (r: Result<String, SErr>) ensures r.is_ok() == d.text@.is_some(), r.is_ok() ==> r.unwrap()@ == d.text@.unwrap() { unimplemented!() }
/// the element a decimal text stands for: that of a number below the modulus, nothing else
pub open spec fn ptext(s: Option<Seq<char>>) -> Option<Num> { match s { None => None, Some(t) => match undec(t) { None => None, Some(n) => if n < pmod() { Some(fint(n as int)) } else { None } } } }
pub proof fn l_rt_text(a: Num) ensures ptext(Some(dec(nint(a) as nat))) == Some(a) { ax_nint(a); ax_dec(nint(a) as nat); }
pub proof fn l_minus1() ensures nint(fint(-1)) == pmod() - 1 { ax_pmod(); l_fint_mod(-1); lemma_fundamental_div_mod_converse(-1, pmod(), -1, pmod() - 1); }
## native::num|ToString|Num|to_string
inherent: yes
ens: r@ == dec(nint(*self) as nat)
## native::num|Serialize|Num|serialize
inherent: yes
sig: fn serialize(&self, serializer: VSer) -> (r: Result<VSOk, SErr>)
out: Result<VSOk, SErr>
ens: r.is_ok() ==> r.unwrap().text@ == dec(nint(*self) as nat)
## native::num|Deserialize|Num|deserialize
inherent: yes
igen:
sig: fn deserialize(deserializer: VDe) -> (r: Result<Num, SErr>)
out: Result<Num, SErr>
ens: r.is_ok() == ptext(deserializer.text@).is_some(), r.is_ok() ==> ptext(deserializer.text@) == Some(r.unwrap())
begin: l_minus1(); ax_pmod();
