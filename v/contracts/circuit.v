@area circuit
@include native_num
@use circax
@types circuit::num|type|Index=#[derive(Clone,~Copy,~PartialEq,~Eq,~Structural)] circuit::num|type|LookupAction=#[derive(PartialEq,~Eq,~Structural)] circuit::num|type|CNum circuit::bool|type|CBool
%% raw
/// the assignment under consideration: any one at all (soundness), the carried one when honest()
pub uninterp spec fn sig(i: Index) -> Num;
// TRUSTED: the first input is the constant one
pub broadcast axiom fn ax_sig_one() ensures #[trigger] sig(Index::Input(0)) == f1();
// TRUSTED: a constraint system (TestCS is checked by C26, Groth16CS by C19)
#[verifier::external_body]
pub struct Cs { x: u64 }
impl Cs {
 #[verifier::external_body] pub fn alloc(&self, value: Option<Num>) -> (r: Index) ensures honest() && value.is_some() ==> sig(r) == value.unwrap() { unimplemented!() }
 #[verifier::external_body] pub fn alloc_input(&self, value: Option<Num>) -> (r: Index) ensures honest() && value.is_some() ==> sig(r) == value.unwrap() { unimplemented!() }
 #[verifier::external_body] pub fn enforce<'a>(&self, a: &CNum<'a>, b: &CNum<'a>, c: &CNum<'a>)
   requires honest() ==> fmul(a.ev(), b.ev()) == c.ev() ensures fmul(a.ev(), b.ev()) == c.ev() { unimplemented!() }
}
// TRUSTED: the linked_list crate (a sequence with a cursor between elements)
#[verifier::external_body]
pub struct LinkedList { x: Vec<(Index, Num)> }
impl View for LinkedList { type V = Seq<(Index, Num)>; uninterp spec fn view(&self) -> Seq<(Index, Num)>; }
pub struct Cursor<'b> { pub l: &'b mut LinkedList, pub pos: usize }
pub type K = Index;
impl LinkedList {
  #[verifier::external_body] pub fn new() -> (r: LinkedList) ensures r@ == Seq::<(Index, Num)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn vlen(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn front(&self) -> (r: Option<&(Index, Num)>) ensures r.is_some() == (self@.len() > 0), r.is_some() ==> *r.unwrap() == self@[0] { unimplemented!() }
  #[verifier::external_body] pub fn back(&self) -> (r: Option<&(Index, Num)>) ensures r.is_some() == (self@.len() > 0), r.is_some() ==> *r.unwrap() == self@.last() { unimplemented!() }
  #[verifier::external_body] pub fn push_back(&mut self, t: (Index, Num)) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
  #[verifier::external_body] pub fn vget(&self, i: usize) -> (r: &(Index, Num)) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn vget_mut(&mut self, i: usize) -> (r: &mut (Index, Num)) requires i < old(self)@.len() ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
  #[verifier::external_body] pub fn cursor<'b>(&'b mut self) -> (r: Cursor<'b>) ensures (*r.l)@ == old(self)@, *final(r.l) == *final(self), r.pos == 0 { unimplemented!() }
}
impl Clone for LinkedList { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'b> Cursor<'b> {
  #[verifier::external_body] pub fn peek_next(&mut self) -> (r: Option<&mut (Index, Num)>)
    ensures *final(final(self).l) == *final(old(self).l), final(self).pos == old(self).pos,
     match r { Some(t) => old(self).pos < (*old(self).l)@.len() && *t == (*old(self).l)@[old(self).pos as int] && (*final(self).l)@ == (*old(self).l)@.update(old(self).pos as int, *final(t)),
        None => old(self).pos >= (*old(self).l)@.len() && (*final(self).l)@ == (*old(self).l)@ } { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, t: (Index, Num))
    ensures *final(final(self).l) == *final(old(self).l), final(self).pos == old(self).pos, (*final(self).l)@ == (*old(self).l)@.insert(old(self).pos as int, t) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self) -> (r: Option<(Index, Num)>)
    ensures *final(final(self).l) == *final(old(self).l), final(self).pos == old(self).pos,
      old(self).pos < (*old(self).l)@.len() ==> (*final(self).l)@ == (*old(self).l)@.remove(old(self).pos as int) && r == Some((*old(self).l)@[old(self).pos as int]),
      old(self).pos >= (*old(self).l)@.len() ==> (*final(self).l)@ == (*old(self).l)@ && r.is_none() { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&mut (Index, Num)>)
    ensures *final(final(self).l) == *final(old(self).l),
     match r { Some(t) => old(self).pos < (*old(self).l)@.len() && final(self).pos == old(self).pos + 1 && *t == (*old(self).l)@[old(self).pos as int] && (*final(self).l)@ == (*old(self).l)@.update(old(self).pos as int, *final(t)),
        None => old(self).pos >= (*old(self).l)@.len() && (*final(self).l)@ == (*old(self).l)@ && final(self).pos == 0 } { unimplemented!() }
  #[verifier::external_body] pub fn seek_forward(&mut self, n: usize)
    requires n == 1, old(self).pos < (*old(self).l)@.len()
    ensures *final(final(self).l) == *final(old(self).l), final(self).pos == old(self).pos + 1, (*final(self).l)@ == (*old(self).l)@ { unimplemented!() }
}
// the order of indices is irrelevant for the value of a combination: nothing is assumed about it
impl PartialOrdSpecImpl for Index { open spec fn obeys_partial_cmp_spec() -> bool { false } open spec fn partial_cmp_spec(&self, o: &Index) -> Option<Ordering> { arbitrary() } }
impl PartialOrd for Index { #[verifier::external_body] fn partial_cmp(&self, o: &Index) -> Option<Ordering> { unimplemented!() } }
pub open spec fn tm(t: (Index, Num)) -> Num { fmul(t.1, sig(t.0)) }
pub open spec fn lcev(s: Seq<(Index, Num)>) -> Num decreases s.len() { if s.len() == 0 { f0() } else { fadd(lcev(s.drop_last()), tm(s.last())) } }
pub proof fn l_insert(s: Seq<(Index, Num)>, i: int, t: (Index, Num)) requires 0 <= i <= s.len() ensures lcev(s.insert(i, t)) == fadd(lcev(s), tm(t)) decreases s.len()
{ broadcast use fieldax; let u = s.insert(i, t);
  if i == s.len() { assert(u.drop_last() =~= s); }
  else { assert(u.drop_last() =~= s.drop_last().insert(i, t)); assert(u.last() == s.last()); l_insert(s.drop_last(), i, t); let a = lcev(s.drop_last()); ax_addassoc(a, tm(t), tm(s.last())); ax_addassoc(a, tm(s.last()), tm(t)); } }
pub proof fn l_remove(s: Seq<(Index, Num)>, i: int) requires 0 <= i < s.len() ensures lcev(s) == fadd(lcev(s.remove(i)), tm(s[i]))
{ assert(s.remove(i).insert(i, s[i]) =~= s); l_insert(s.remove(i), i, s[i]); }
pub proof fn l_update(s: Seq<(Index, Num)>, i: int, t: (Index, Num)) requires 0 <= i < s.len() ensures fadd(lcev(s.update(i, t)), tm(s[i])) == fadd(lcev(s), tm(t))
{ broadcast use fieldax; l_remove(s, i); let u = s.update(i, t); l_remove(u, i); assert(u.remove(i) =~= s.remove(i)); let b = lcev(s.remove(i));
  ax_addassoc(b, tm(t), tm(s[i])); ax_addassoc(b, tm(s[i]), tm(t)); }
pub proof fn l_take(s: Seq<(Index, Num)>, i: int) requires 0 <= i < s.len() ensures lcev(s.take(i + 1)) == fadd(lcev(s.take(i)), tm(s[i]))
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn l_take_all(s: Seq<(Index, Num)>) ensures s.take(s.len() as int) == s, s.take(0) == Seq::<(Index, Num)>::empty() { assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<(Index, Num)>::empty()); }
pub broadcast proof fn l_lcsmall(s: Seq<(Index, Num)>) ensures s.len() == 0 ==> #[trigger] lcev(s) == f0(), s.len() == 1 ==> lcev(s) == fmul(s[0].1, sig(s[0].0))
{ broadcast use fieldax; reveal_with_fuel(lcev, 3); }
pub open spec fn eqn(a: Seq<Num>, b: Seq<Num>) -> Num { fb(a == b) }
pub proof fn l_isbit2(a: Seq<Num>, b: Seq<Num>) ensures isbit(eqn(a, b)) { }
pub proof fn l_isbit(x: bool) ensures isbit(fb(x)) { }
pub proof fn l_fbmul(x: bool, y: bool) ensures fmul(fb(x), fb(y)) == fb(x && y) { broadcast use fieldax; }
pub broadcast group circax { ax_sig_one, l_lcsmall }
pub proof fn l_upd_add(s: Seq<(Index, Num)>, p: int, t: (Index, Num), v: Num) requires 0 <= p < s.len(), t.0 == s[p].0, t.1 == fadd(s[p].1, v) ensures lcev(s.update(p, t)) == fadd(lcev(s), fmul(v, sig(t.0)))
{ broadcast use fieldax; let x = lcev(s.update(p, t)); let o = tm(s[p]); let w = fmul(v, sig(t.0)); l_update(s, p, t); l_add_mul(s[p].1, v, sig(t.0));
  ax_addassoc(lcev(s), w, o); l_cancel(o, x, fadd(lcev(s), w)); }
/// one step of merging k*v into a combination: inserted, added to an existing term, or cancelled against it
pub proof fn l_merge(s0: Seq<(Index, Num)>, s1: Seq<(Index, Num)>, p: int, k: Index, v: Num)
  requires 0 <= p <= s0.len(), s1 == s0.insert(p, (k, v)) || (p < s0.len() && s0[p].0 == k && (s1 == s0.update(p, (k, fadd(s0[p].1, v))) || (fadd(s0[p].1, v) == f0() && s1 == s0.update(p, (k, fadd(s0[p].1, v))).remove(p))))
  ensures lcev(s1) == fadd(lcev(s0), fmul(v, sig(k)))
{ broadcast use fieldax;
  if s1 == s0.insert(p, (k, v)) { l_insert(s0, p, (k, v)); }
  else { let u = s0.update(p, (k, fadd(s0[p].1, v))); l_upd_add(s0, p, (k, fadd(s0[p].1, v)), v); if s1 != u { l_remove(u, p); } } }
pub proof fn l_scale(s: Seq<(Index, Num)>, t: Seq<(Index, Num)>, c: Num) requires s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] t[j]).0 == s[j].0 && t[j].1 == fmul(s[j].1, c) ensures lcev(t) == fmul(lcev(s), c) decreases s.len()
{ broadcast use fieldax; if s.len() > 0 { l_scale(s.drop_last(), t.drop_last(), c); let a = s.last(); l_add_mul(lcev(s.drop_last()), tm(a), c); ax_mulassoc(a.1, c, sig(a.0)); ax_mulassoc(a.1, sig(a.0), c); } }
pub proof fn l_negate(s: Seq<(Index, Num)>, t: Seq<(Index, Num)>) requires s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] t[j]).0 == s[j].0 && t[j].1 == fneg(s[j].1) ensures lcev(t) == fneg(lcev(s)) decreases s.len()
{ broadcast use fieldax; l_neg0(); if s.len() > 0 { l_negate(s.drop_last(), t.drop_last()); let a = s.last(); l_neg_add(lcev(s.drop_last()), tm(a)); l_neg_mul(a.1, sig(a.0)); } }
impl<'a> CNum<'a> {
  pub open spec fn ev(&self) -> Num { lcev(self.lc@) }
  /// when honest, the carried value is the value under the assignment
  pub open spec fn wf(&self) -> bool { honest() ==> self.value == Some(self.ev()) }
}
impl<'a> CBool<'a> {
  pub open spec fn ev(&self) -> Num { self.0.ev() }
  pub open spec fn wf(&self) -> bool { self.0.wf() && (honest() ==> isbit(self.ev())) }
}
impl<'a> Clone for CNum<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> Clone for CBool<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// contracts of every signal type (the property statements); evs: the components' values under the assignment
pub trait Signal<'a>: Sized {
  type Value: Sized;
  spec fn evs(&self) -> Seq<Num>;
  spec fn wf(&self) -> bool;
  spec fn vnums(v: Self::Value) -> Seq<Num>;
  spec fn width() -> nat;
  /// the signal has a component to take the constraint system from / can be compared
  spec fn csok() -> bool;
  spec fn eqok() -> bool;
  spec fn vok(v: Self::Value) -> bool;
  proof fn l_width(&self) requires self.swf() ensures self.evs().len() == Self::width();
  proof fn l_vwidth(v: Self::Value) requires Self::vok(v) ensures Self::vnums(v).len() == Self::width();
  /// structural well-formedness (lengths)
  spec fn swf(&self) -> bool;
  fn get_cs(&self) -> (r: &'a Cs) requires Self::csok(), self.swf();
  fn from_const(cs: &'a Cs, value: &Self::Value) -> (r: Self) requires Self::vok(*value) ensures r.wf(), r.swf(), r.evs() == Self::vnums(*value);
  fn get_value(&self) -> (r: Option<Self::Value>) requires self.wf(), self.swf()
     ensures honest() ==> r.is_some(), honest() ==> (Self::vok(r.unwrap()) && Self::vnums(r.unwrap()) == self.evs());
  fn alloc(cs: &'a Cs, value: Option<&Self::Value>) -> (r: Self) requires honest() ==> value.is_some(), value.is_some() ==> Self::vok(*value.unwrap())
     ensures r.wf(), r.swf(), honest() ==> r.evs() == Self::vnums(*value.unwrap());
  fn switch(&self, bit: &CBool<'a>, if_else: &Self) -> (r: Self) requires self.wf(), self.swf(), bit.wf(), if_else.wf(), if_else.swf()
     ensures r.wf(), r.swf(), bit.ev() == f1() ==> r.evs() == self.evs(), bit.ev() == f0() ==> r.evs() == if_else.evs();
  fn assert_const(&self, value: &Self::Value) requires self.wf(), self.swf(), Self::vok(*value), honest() ==> self.evs() == Self::vnums(*value)
     ensures self.evs() == Self::vnums(*value);
  fn assert_eq(&self, other: &Self) requires self.wf(), self.swf(), other.wf(), other.swf(), honest() ==> self.evs() == other.evs() ensures self.evs() == other.evs();
  fn is_eq(&self, other: &Self) -> (r: CBool<'a>) requires self.wf(), self.swf(), other.wf(), other.swf(), Self::eqok() ensures r.wf(), r.ev() == eqn(self.evs(), other.evs());
  fn inputize(&self) requires self.wf(), self.swf();
  fn linearize_builder(&self, acc: &mut Vec<CNum<'a>>) requires self.wf(), self.swf()
     ensures evl(final(acc)@) == evl(old(acc)@) + self.evs(), wfl(old(acc)@) ==> wfl(final(acc)@);
  fn as_const(&self) -> (r: Option<Self::Value>) requires self.wf(), self.swf() ensures r.is_some() ==> Self::vok(r.unwrap()) && self.evs() == Self::vnums(r.unwrap());
}
pub open spec fn evl<'a>(s: Seq<CNum<'a>>) -> Seq<Num> { s.map_values(|c: CNum<'a>| c.ev()) }
pub open spec fn wfl<'a>(s: Seq<CNum<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub trait Unsigned { spec fn n() -> nat; /* TRUSTED: typenum */ fn vusize() -> (r: usize) ensures r == Self::n(); }
pub proof fn l_cat(a: Seq<Num>, b: Seq<Num>, c: Seq<Num>, d: Seq<Num>) requires a.len() == c.len() ensures (a + b == c + d) == (a == c && b == d)
{ if a + b == c + d { assert(a =~= (a + b).take(a.len() as int)); assert(c =~= (c + d).take(a.len() as int)); assert(b =~= (a + b).skip(a.len() as int)); assert(d =~= (c + d).skip(a.len() as int)); } }
