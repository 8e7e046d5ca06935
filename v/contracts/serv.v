@area serv
@include sigs
@novacuity |iter |index |index_mut |iter_mut
@sub Vec :: < T > :: deserialize => vec_de :: < T >
@sub Error :: invalid_length => vinvlen
@sub self . 0 . serialize => self . 0 . vec_ser
%% raw
// TRUSTED: serde's lists
#[derive(Debug)]
pub struct SErr { }
#[verifier::external_body]
pub struct VDe { x: u8 }
pub struct VSer { }
#[verifier::external_body]
pub struct VSOk { x: u8 }
pub uninterp spec fn de_items<X>(d: VDe) -> Option<Seq<X>>;
pub uninterp spec fn ser_items<X>(o: VSOk) -> Seq<X>;
#[verifier::external_body]
pub fn vec_de<X>(d: VDe) -> (r: Result<Vec<X>, SErr>) ensures r.is_ok() == de_items::<X>(d).is_some(), r.is_ok() ==> r.unwrap()@ == de_items::<X>(d).unwrap() { unimplemented!() }
pub fn vinvlen(n: usize, m: &&str) -> (r: SErr) { SErr { } }
pub trait VSerV<X> { fn vec_ser(&self, s: VSer) -> (r: Result<VSOk, SErr>) ensures r.is_ok() ==> ser_items::<X>(r.unwrap()) == self.sitems(); spec fn sitems(&self) -> Seq<X>; }
impl<X> VSerV<X> for Vec<X> { open spec fn sitems(&self) -> Seq<X> { self@ } #[verifier::external_body] fn vec_ser(&self, s: VSer) -> Result<VSOk, SErr> { unimplemented!() } }
## core::sizedvec|Serialize|SizedVec<T,L>|serialize
inherent: yes
igen: < T , L : Unsigned >
sig: fn serialize(&self, serializer: VSer) -> (r: Result<VSOk, SErr>)
out: Result<VSOk, SErr>
ens: r.is_ok() ==> ser_items::<T>(r.unwrap()) == self.0@
## core::sizedvec|Deserialize|SizedVec<T,L>|deserialize
inherent: yes
igen: < T , L : Unsigned >
sig: fn deserialize(deserializer: VDe) -> (r: Result<SizedVec<T, L>, SErr>)
out: Result<SizedVec<T, L>, SErr>
ens: r.is_ok() == (de_items::<T>(deserializer).is_some() && de_items::<T>(deserializer).unwrap().len() == L::n()), r.is_ok() ==> r.unwrap().0@ == de_items::<T>(deserializer).unwrap()
