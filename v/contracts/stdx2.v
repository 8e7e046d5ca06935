@area stdx2
@include stdx bitit
%% raw
// TRUSTED renderings of standard library operations on slices and vectors (continued)
impl<A> VVec<A> for [A] { fn vlen(&self) -> (r: usize) { self.len() } fn vget(&self, i: usize) -> (r: &A) { &self[i] } open spec fn vs(&self) -> Seq<A> { self@ } }
pub trait VMut<A> { spec fn vms(&self) -> Seq<A>; fn vget_mut(&mut self, i: usize) -> (r: &mut A) requires i < old(self).vms().len() ensures *r == old(self).vms()[i as int], final(self).vms() == old(self).vms().update(i as int, *final(r)); }
impl<A> VMut<A> for [A] { open spec fn vms(&self) -> Seq<A> { self@ } #[verifier::external_body] fn vget_mut(&mut self, i: usize) -> (r: &mut A) { &mut self[i] } }
impl<A> VMut<A> for Vec<A> { open spec fn vms(&self) -> Seq<A> { self@ } #[verifier::external_body] fn vget_mut(&mut self, i: usize) -> (r: &mut A) { &mut self[i] } }
/// clone_from_slice / copy_from_slice: panics unless the lengths agree
#[verifier::external_body]
pub fn vcopy_all<A: Clone>(d: &mut [A], s: &[A]) requires honest() ==> old(d)@.len() == s@.len() ensures old(d)@.len() == s@.len(), final(d)@ == s@ { d.clone_from_slice(s) }
#[verifier::external_body]
pub fn vcopy_range<A: Clone>(d: &mut [A], i: usize, j: usize, s: &[A]) requires honest() ==> i <= j && j <= old(d)@.len() && j - i == s@.len()
  ensures i <= j, j <= old(d)@.len(), j - i == s@.len(), final(d)@.len() == old(d)@.len(), forall|k: int| 0 <= k < final(d)@.len() ==> #[trigger] final(d)@[k] == if i <= k < j { s@[k - i] } else { old(d)@[k] } { d[i..j].clone_from_slice(s) }
pub trait VToVec<A> { spec fn vtv(&self) -> Seq<A>; fn vto_vec(&self) -> (r: Vec<A>) ensures r@ == self.vtv(); }
impl<A: Clone> VToVec<A> for [A] { open spec fn vtv(&self) -> Seq<A> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<A>) { self.to_vec() } }
impl<A: Clone> VToVec<A> for Vec<A> { open spec fn vtv(&self) -> Seq<A> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<A>) { self.to_vec() } }
#[verifier::external_body]
pub fn vextend<A: Clone>(d: &mut Vec<A>, s: &[A]) ensures final(d)@ == old(d)@ + s@ { d.extend_from_slice(s) }
pub trait VArr<A> { spec fn var(&self) -> Seq<A>; fn vas_ref(&self) -> (r: &[A]) ensures r@ == self.var(); }
impl<A, const N: usize> VArr<A> for [A; N] { open spec fn var(&self) -> Seq<A> { self@ } #[verifier::external_body] fn vas_ref(&self) -> (r: &[A]) { self } }
impl<A> VArr<A> for Vec<A> { open spec fn var(&self) -> Seq<A> { self@ } fn vas_ref(&self) -> (r: &[A]) { self.as_slice() } }
#[verifier::external_body]
pub fn vcopy_tail<A: Clone>(d: &mut [A], i: usize, s: &[A]) requires honest() ==> i <= old(d)@.len() && old(d)@.len() - i == s@.len()
  ensures i <= old(d)@.len(), old(d)@.len() - i == s@.len(), final(d)@ == old(d)@.take(i as int) + s@ { d[i..].clone_from_slice(s) }
