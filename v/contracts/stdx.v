@area stdx
@include field
%% raw
// TRUSTED renderings of standard library operations on slices and vectors
#[verifier::external_body]
pub fn vec_from_elem<A: Clone>(x: A, n: usize) -> (r: Vec<A>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn vconcat<A: Clone>(a: &[A], b: &[A]) -> (r: Vec<A>) ensures r@ == a@ + b@ { unimplemented!() }
pub fn vslice_range<A>(a: &[A], i: usize, j: usize) -> (r: &[A]) requires honest() ==> i <= j && j <= a@.len() ensures i <= j <= a@.len(), r@ == a@.subrange(i as int, j as int) { if !(i <= j && j <= a.len()) { reject() } vstd::slice::slice_subrange(a, i, j) }
