@area coll
@include field
%% raw
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
/// rendering of collect()
pub trait VFromVec<A>: Sized { spec fn vreq(v: Seq<A>) -> bool; spec fn vens(v: Seq<A>, r: Self) -> bool; fn vfv(v: Vec<A>) -> (r: Self) requires Self::vreq(v@) ensures Self::vens(v@, r); }
pub fn vfrom_vec<A, B: VFromVec<A>>(v: Vec<A>) -> (r: B) requires B::vreq(v@) ensures B::vens(v@, r) { B::vfv(v) }
impl<A> VFromVec<A> for Vec<A> { open spec fn vreq(v: Seq<A>) -> bool { true } open spec fn vens(v: Seq<A>, r: Vec<A>) -> bool { r@ == v } fn vfv(v: Vec<A>) -> (r: Vec<A>) { v } }
impl<A> VFromVec<Option<A>> for Option<Vec<A>> {
  open spec fn vreq(v: Seq<Option<A>>) -> bool { true }
  open spec fn vens(v: Seq<Option<A>>, r: Option<Vec<A>>) -> bool { r.is_some() == (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).is_some()) && (r.is_some() ==> r.unwrap()@.len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger r.unwrap()@[i]] 0 <= i < v.len() ==> v[i] == Some(r.unwrap()@[i])) }
  #[verifier::external_body] fn vfv(v: Vec<Option<A>>) -> (r: Option<Vec<A>>) { unimplemented!() }
}
