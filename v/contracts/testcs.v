@area testcs
@include native_num circuit
@types core::cs|type|TestCS
%% raw
// TRUSTED rendering: a RefCell used from one thread is its content, and &self of its owner is exclusive (a second simultaneous borrow, which would panic, does not pass the borrow checker here)
pub struct RefCell<A> { pub v: A }
impl<A> RefCell<A> {
  pub fn new(v: A) -> (r: RefCell<A>) ensures r.v == v { RefCell { v } }
  pub fn borrow(&self) -> (r: &A) ensures *r == self.v { &self.v }
  pub fn borrow_mut(&mut self) -> (r: &mut A) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v }
}
// TRUSTED: the standard library's map
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct HashMap<A, B> { x: Vec<(A, B)> }
impl<A, B> HashMap<A, B> {
  pub uninterp spec fn view(&self) -> Map<A, B>;
  #[verifier::external_body] pub fn new() -> (r: HashMap<A, B>) ensures r@ == Map::<A, B>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: A, v: B) -> (r: Option<B>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl TestCS {
  /// the variables that exist: the constant one and every one handed out
  pub open spec fn has(&self, i: Index) -> bool { match i { Index::Input(k) => k < self.ninputs.v, Index::Aux(k) => k < self.naux.v } }
  /// the values known
  pub open spec fn vals(&self) -> Map<Index, Num> { self.variables.v@ }
  /// as reached by any sequence of operations: the constant one exists, and values are known of existing variables only
  pub open spec fn wf(&self) -> bool { self.has(Index::Input(0)) && forall|i: Index| #![trigger self.vals().dom().contains(i)] #![trigger self.has(i)] self.vals().dom().contains(i) ==> self.has(i) && i != Index::Input(0) }
  pub open spec fn room(&self) -> bool { self.ninputs.v < usize::MAX && self.naux.v < usize::MAX && self.ncons.v < usize::MAX }
  /// r is a new variable carrying the value given, and nothing else changed
  pub open spec fn added(&self, o: TestCS, r: Index, v: Option<Num>) -> bool {
    &&& !o.has(r) && r != Index::Input(0) && self.has(r) && forall|i: Index| #![trigger self.has(i)] #![trigger o.has(i)] i != r ==> self.has(i) == o.has(i)
    &&& v.is_some() ==> self.vals() == o.vals().insert(r, v.unwrap())
    &&& v.is_none() ==> self.vals() == o.vals()
    &&& self.ncons.v == o.ncons.v }
}
## core::cs||TestCS<Fe>|new
selfty: TestCS
ens: r.wf(), r.ncons.v == 0, r.vals() == Map::<Index, Num>::empty(), forall|i: Index| #[trigger] r.has(i) == (i == Index::Input(0))
## core::cs||TestCS<Fe>|num_constraints
selfty: TestCS
ens: r == self.ncons.v
## core::cs|ConstraintSystem|TestCS<Fe>|alloc
selfty: TestCS
inherent: 1
sig: fn alloc (& mut self, v : Option < Num >) -> (r : Index)
req: old(self).wf(), old(self).room()
ens: final(self).wf(), final(self).added(*old(self), r, v)
## core::cs|ConstraintSystem|TestCS<Fe>|alloc_input
selfty: TestCS
inherent: 1
sig: fn alloc_input (& mut self, v : Option < Num >) -> (r : Index)
req: old(self).wf(), old(self).room()
ens: final(self).wf(), final(self).added(*old(self), r, v)
## core::cs|ConstraintSystem|TestCS<Fe>|enforce
selfty: TestCS
inherent: 1
sig: fn enforce<'a> (& mut self, a : &CNum<'a>, b : &CNum<'a>, c : &CNum<'a>)
req: old(self).wf(), old(self).room(), honest() ==> (a.value.is_some() && b.value.is_some() && c.value.is_some() ==> fmul(a.value.unwrap(), b.value.unwrap()) == c.value.unwrap())
ens: final(self).wf(), final(self).ncons.v == old(self).ncons.v + 1, final(self).vals() == old(self).vals(), forall|i: Index| #![trigger final(self).has(i)] #![trigger old(self).has(i)] final(self).has(i) == old(self).has(i), a.value.is_some() && b.value.is_some() && c.value.is_some() ==> fmul(a.value.unwrap(), b.value.unwrap()) == c.value.unwrap()
