@area gcs
@include native_num testcs coll
@sub RefCell < BCS > => RefCell<BCS>
@sub PhantomData < BE > => PhantomData<u8>
@sub bellman :: LinearCombination < BE > => BLC
@types helpers::groth16|type|Groth16CS
%% raw
// TRUSTED: bellman's constraint system: it records what it is given, in order, and numbers the variables of each kind; its variables and combinations have the layout of the library's own
pub enum Ev { Aux(Option<Num>), Inp(Option<Num>), Con(Seq<(Index, T)>, Seq<(Index, T)>, Seq<(Index, T)>) }
pub open spec fn naux(l: Seq<Ev>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { naux(l.drop_last()) + if l.last() is Aux { 1nat } else { 0nat } } }
pub open spec fn ninp(l: Seq<Ev>) -> nat decreases l.len() { if l.len() == 0 { 1 } else { ninp(l.drop_last()) + if l.last() is Inp { 1nat } else { 0nat } } }
pub struct BVar { pub i: Ghost<Index> }
pub struct BLC { pub t: Ghost<Seq<(Index, T)>> }
pub struct BCS { pub log: Ghost<Seq<Ev>> }
#[derive(Debug)]
pub enum SynthesisError { AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable }
pub open spec fn known(v: Result<T, SynthesisError>) -> Option<Num> { match v { Ok(x) => Some(Num(x)), Err(_) => None } }
impl BCS {
  #[verifier::external_body] pub fn alloc(&mut self, v: Result<T, SynthesisError>) -> (r: Option<BVar>) ensures v.is_ok() ==> r.is_some(), r.is_some() ==> final(self).log@ == old(self).log@.push(Ev::Aux(known(v))) && idx(r.unwrap().i@, false) == naux(old(self).log@) { unimplemented!() }
  #[verifier::external_body] pub fn alloc_input(&mut self, v: Result<T, SynthesisError>) -> (r: Option<BVar>) ensures v.is_ok() ==> r.is_some(), r.is_some() ==> final(self).log@ == old(self).log@.push(Ev::Inp(known(v))) && idx(r.unwrap().i@, true) == ninp(old(self).log@) { unimplemented!() }
  #[verifier::external_body] pub fn enforce(&mut self, a: BLC, b: BLC, c: BLC) ensures final(self).log@ == old(self).log@.push(Ev::Con(a.t@, b.t@, c.t@)) { unimplemented!() }
}
/// the number of a variable of the given kind
pub open spec fn idx(i: Index, inp: bool) -> int { match i { Index::Input(k) => if inp { k as int } else { -1 }, Index::Aux(k) => if inp { -1 } else { k as int } } }
pub trait VTr<B>: Sized { spec fn trok(self, b: B) -> bool; }
impl VTr<Index> for BVar { open spec fn trok(self, b: Index) -> bool { b == self.i@ } }
impl VTr<BLC> for Vec<(Index, T)> { open spec fn trok(self, b: BLC) -> bool { b.t@ == self@ } }
#[verifier::external_body]
pub fn transmute<A: VTr<B>, B>(a: A) -> (r: B) ensures a.trok(r) { unimplemented!() }
pub trait Assignment<A>: Sized { fn get(&self) -> Result<&A, SynthesisError>; fn grab(self) -> Result<A, SynthesisError>; }
pub open spec fn lcof(s: Seq<(Index, Num)>) -> Seq<(Index, T)> { s.map_values(|t: (Index, Num)| (t.0, t.1.0)) }
impl Groth16CS { pub open spec fn room(&self) -> bool { self.ninputs.v < usize::MAX && self.naux.v < usize::MAX && self.ncons.v < usize::MAX } pub open spec fn log(&self) -> Seq<Ev> { self.bcs.v.log@ } }
## helpers::groth16|Assignment<T>|Option<Num>|get
igen:
ens: r.is_ok() == self.is_some(), r.is_ok() ==> Num(*r.unwrap()) == self.unwrap()
## helpers::groth16|Assignment<T>|Option<Num>|grab
igen:
ens: r.is_ok() == self.is_some(), r.is_ok() ==> Num(r.unwrap()) == self.unwrap()
## helpers::groth16||Groth16CS<BE,BCS>|new
selfty: Groth16CS
ens: r.log() == cs.log@
## helpers::groth16|||Groth16CSBEBCS_enforce__into_bellman_lc
sig: fn Groth16CSBEBCS_enforce__into_bellman_lc<'a>(s: &CNum<'a>) -> (r: BLC)
loops: iter
ens: r.t@ == lcof(s.lc@)
inv0: invariant __n0 == s.lc@.len(), __s1@ == s.lc@, __i0 <= __n0, __o0@ =~= lcof(s.lc@).take(__i0 as int) decreases __n0 - __i0
post0: proof { assert(lcof(s.lc@).take(__n0 as int) =~= lcof(s.lc@)); }
## helpers::groth16|ConstraintSystem|Groth16CS<BE,BCS>|alloc
selfty: Groth16CS
inherent: 1
allow: closure
sig: fn alloc (& mut self, value : Option < Num >) -> (r : Index)
req: old(self).room(), honest() ==> value.is_some()
ens: final(self).log() == old(self).log().push(Ev::Aux(value)), idx(r, false) == naux(old(self).log())
subst: alloc (| | __export :: must_use ({ format (format_args ! ("a[{0}]" , naux)) }) , | | value . grab ()) => alloc (value . grab ())
## helpers::groth16|ConstraintSystem|Groth16CS<BE,BCS>|alloc_input
selfty: Groth16CS
inherent: 1
allow: closure
sig: fn alloc_input (& mut self, value : Option < Num >) -> (r : Index)
req: old(self).room(), honest() ==> value.is_some()
ens: final(self).log() == old(self).log().push(Ev::Inp(value)), idx(r, true) == ninp(old(self).log())
subst: alloc_input (| | __export :: must_use ({ format (format_args ! ("i[{0}]" , ninputs)) }) , | | value . grab ()) => alloc_input (value . grab ())
## helpers::groth16|ConstraintSystem|Groth16CS<BE,BCS>|enforce
selfty: Groth16CS
inherent: 1
allow: closure
sig: fn enforce<'a> (& mut self, a : &CNum<'a>, b : &CNum<'a>, c : &CNum<'a>)
req: old(self).room()
ens: final(self).log() == old(self).log().push(Ev::Con(lcof(a.lc@), lcof(b.lc@), lcof(c.lc@)))
subst: enforce (| | __export :: must_use ({ format (format_args ! ("c[{0}]" , ncons)) }) , | _ | a , | _ | b , | _ | c) => enforce (a, b, c)
