@area sigs
@include num tupeq coll
@novacuity |iter |index |index_mut |iter_mut
@types core::sizedvec|type|SizedVec
%% raw
// rendering of iteration, indexing and length of SizedVec: those of its Vec (extraction rule; SizedVec::iter and ::index are pinned below)
impl<T, L: Unsigned> SizedVec<T, L> {
  pub fn vlen(&self) -> (r: usize) ensures r == self.0@.len() { self.0.len() }
  pub fn vget(&self, i: usize) -> (r: &T) requires honest() ==> i < self.0@.len() ensures i < self.0@.len(), *r == self.0@[i as int] { if i >= self.0.len() { reject() } &self.0[i] }
  pub open spec fn view(&self) -> Seq<T> { self.0@ }
}
impl<A, L: Unsigned> VFromVec<A> for SizedVec<A, L> {
  open spec fn vreq(v: Seq<A>) -> bool { honest() ==> v.len() == L::n() }
  open spec fn vens(v: Seq<A>, r: SizedVec<A, L>) -> bool { r.0@ == v && v.len() == L::n() }
  fn vfv(v: Vec<A>) -> (r: SizedVec<A, L>) { SizedVec::<A, L>::from_iter(v) }
}
impl<T, L: Unsigned> Clone for SizedVec<T, L> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn cat<'a, T: Signal<'a>>(s: Seq<T>) -> Seq<Num> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat::<T>(s.drop_last()) + s.last().evs() } }
pub open spec fn vcat<'a, T: Signal<'a>>(s: Seq<T::Value>) -> Seq<Num> decreases s.len() { if s.len() == 0 { Seq::empty() } else { vcat::<T>(s.drop_last()) + T::vnums(s.last()) } }
pub open spec fn allw<'a, T: Signal<'a>>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() && s[i].swf() }
pub open spec fn allv<'a, T: Signal<'a>>(s: Seq<T::Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> T::vok(#[trigger] s[i]) }
pub proof fn l_catstep<'a, T: Signal<'a>>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures cat::<T>(s.take(i + 1)) == cat::<T>(s.take(i)) + s[i].evs(), cat::<T>(s.take(0)) == Seq::<Num>::empty()
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn l_vcatstep<'a, T: Signal<'a>>(s: Seq<T::Value>, i: int) requires 0 <= i < s.len() ensures vcat::<T>(s.take(i + 1)) == vcat::<T>(s.take(i)) + T::vnums(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn l_catlen<'a, T: Signal<'a>>(s: Seq<T>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).swf() ensures cat::<T>(s).len() == s.len() * T::width() decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).swf() by { assert(s.drop_last()[i] == s[i]); } l_catlen::<T>(s.drop_last()); s.last().l_width(); assert((s.len() - 1) * T::width() + T::width() == s.len() * T::width()) by (nonlinear_arith); } }
pub proof fn l_vcatlen<'a, T: Signal<'a>>(s: Seq<T::Value>) requires allv::<T>(s) ensures vcat::<T>(s).len() == s.len() * T::width() decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies T::vok(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } l_vcatlen::<T>(s.drop_last()); T::l_vwidth(s.last()); assert((s.len() - 1) * T::width() + T::width() == s.len() * T::width()) by (nonlinear_arith); } }
/// equality of concatenations is equality componentwise
pub proof fn l_cateq<'a, T: Signal<'a>>(s: Seq<T>, t: Seq<T>) requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).swf(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).swf()
  ensures (cat::<T>(s) == cat::<T>(t)) == (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).evs() == t[i].evs()) decreases s.len()
{ if s.len() > 0 { let a = s.drop_last(); let b = t.drop_last();
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).swf() by { assert(a[i] == s[i]); } assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).swf() by { assert(b[i] == t[i]); }
    l_cateq::<T>(a, b); l_catlen::<T>(a); l_catlen::<T>(b); l_cat(cat::<T>(a), s.last().evs(), cat::<T>(b), t.last().evs());
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).evs() == t[i].evs() { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).evs() == b[i].evs() by { assert(s[i].evs() == t[i].evs()); } assert(s[s.len() - 1].evs() == t[s.len() - 1].evs()); }
    if cat::<T>(s) == cat::<T>(t) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).evs() == t[i].evs() by { if i < s.len() - 1 { assert(a[i] == s[i] && b[i] == t[i]); } } } } }
pub proof fn l_vcateq<'a, T: Signal<'a>>(s: Seq<T>, t: Seq<T::Value>) requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).swf(), allv::<T>(t)
  ensures (cat::<T>(s) == vcat::<T>(t)) == (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).evs() == T::vnums(t[i])) decreases s.len()
{ if s.len() > 0 { let a = s.drop_last(); let b = t.drop_last();
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).swf() by { assert(a[i] == s[i]); } assert forall|i: int| 0 <= i < b.len() implies T::vok(#[trigger] b[i]) by { assert(b[i] == t[i]); }
    l_vcateq::<T>(a, b); l_catlen::<T>(a); l_vcatlen::<T>(b); l_cat(cat::<T>(a), s.last().evs(), vcat::<T>(b), T::vnums(t.last()));
    if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).evs() == T::vnums(t[i]) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).evs() == T::vnums(b[i]) by { assert(s[i].evs() == T::vnums(t[i])); } assert(s[s.len() - 1].evs() == T::vnums(t[s.len() - 1])); }
    if cat::<T>(s) == vcat::<T>(t) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).evs() == T::vnums(t[i]) by { if i < s.len() - 1 { assert(a[i] == s[i] && b[i] == t[i]); } } } } }
pub open spec fn eqpre<'a, T: Signal<'a>>(s: Seq<T>, t: Seq<T>, n: int) -> bool { forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).evs() == t[j].evs() }
pub broadcast proof fn l_takeall<A>(s: Seq<A>) ensures (#[trigger] s.take(s.len() as int)) == s { assert(s.take(s.len() as int) =~= s); }
## core::sizedvec|FromIterator<T>|SizedVec<T,L>|from_iter
sig: fn from_iter(iter: Vec<T>) -> (r: Self)
inherent: 1
req: honest() ==> iter@.len() == L::n()
ens: r.0@ == iter@, iter@.len() == L::n()
subst: Vec :: < T > :: from_iter (iter) => iter
## core::sizedvec||SizedVec<T,L>|iter
expect: self . 0 . iter ()
## core::sizedvec|Index<I>|SizedVec<T,L>|index
expect: Index :: index (& * self . 0 , index)
## core::sizedvec|IndexMut<I>|SizedVec<T,L>|index_mut
expect: IndexMut :: index_mut (& mut * self . 0 , index)
## core::sizedvec||SizedVec<T,L>|iter_mut
expect: self . 0 . iter_mut ()
## core::signal|Signal|SizedVec<T,L>|get_value
loops: iter
pre0: let ghost h: Seq<Option<T::Value>> = __o0@;
inv0: invariant __s1 == &self, allw::<T>(self.0@), self.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0, __o0@.len() == __i0,
  forall|j: int| 0 <= j < __i0 ==> honest() ==> (#[trigger] __o0@[j]).is_some() && T::vok(__o0@[j].unwrap()) && T::vnums(__o0@[j].unwrap()) == self.0@[j].evs() decreases __n0 - __i0
tail: if honest() { let v = $r.unwrap().0@; assert forall|i: int| 0 <= i < v.len() implies T::vok(#[trigger] v[i]) && T::vnums(v[i]) == self.0@[i].evs() by { } l_vcateq::<T>(self.0@, v); }
## core::signal|Signal|SizedVec<T,L>|as_const
loops: iter
pre0: let ghost h: Seq<Option<T::Value>> = __o0@;
inv0: invariant __s1 == &self, allw::<T>(self.0@), self.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0, __o0@.len() == __i0,
  forall|j: int| 0 <= j < __i0 ==> (#[trigger] __o0@[j]).is_some() ==> T::vok(__o0@[j].unwrap()) && T::vnums(__o0@[j].unwrap()) == self.0@[j].evs() decreases __n0 - __i0
tail: if $r.is_some() { let v = $r.unwrap().0@; assert forall|i: int| 0 <= i < v.len() implies T::vok(#[trigger] v[i]) && T::vnums(v[i]) == self.0@[i].evs() by { } l_vcateq::<T>(self.0@, v); }
## core::signal|Signal|SizedVec<T,L>|switch
loops: iter
inv0: invariant __s1 == &self, __s4 == &if_else, allw::<T>(self.0@), self.0@.len() == L::n(), allw::<T>(if_else.0@), if_else.0@.len() == L::n(), bit.wf(), __n0 == L::n(), __i0 <= __n0, __o0@.len() == __i0, allw::<T>(__o0@),
  forall|j: int| 0 <= j < __i0 ==> bit.ev() == f1() ==> (#[trigger] __o0@[j]).evs() == self.0@[j].evs(), forall|j: int| 0 <= j < __i0 ==> bit.ev() == f0() ==> (#[trigger] __o0@[j]).evs() == if_else.0@[j].evs() decreases __n0 - __i0
tail: l_cateq::<T>($r.0@, self.0@); l_cateq::<T>($r.0@, if_else.0@);
## core::signal|Signal|SizedVec<T,L>|get_cs
## core::signal|Signal|SizedVec<T,L>|from_const
loops: iter
inv0: invariant __s1 == &value, allv::<T>(value.0@), value.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0, __o0@.len() == __i0, allw::<T>(__o0@), forall|j: int| 0 <= j < __i0 ==> (#[trigger] __o0@[j]).evs() == T::vnums(value.0@[j]) decreases __n0 - __i0
tail: l_vcateq::<T>($r.0@, value.0@);
## core::signal|Signal|SizedVec<T,L>|alloc
loops: iter iter
inv0: invariant __s1 == &value, allv::<T>(value.0@), value.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0, __o0@.len() == __i0, allw::<T>(__o0@), forall|j: int| 0 <= j < __i0 ==> honest() ==> (#[trigger] __o0@[j]).evs() == T::vnums(value.0@[j]) decreases __n0 - __i0
inv1: invariant !honest(), __n1 == L::n(), __i1 <= __n1, __o1@.len() == __i1, allw::<T>(__o1@) decreases __n1 - __i1
tail: if honest() { l_vcateq::<T>($r.0@, value.unwrap().0@); }
## core::signal|Signal|SizedVec<T,L>|assert_const
loops: iter
begin: l_vcateq::<T>(self.0@, value.0@);
inv0: invariant __s2 == &self, __s5 == &value, allw::<T>(self.0@), self.0@.len() == L::n(), allv::<T>(value.0@), value.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0, forall|j: int| honest() && 0 <= j < __n0 ==> (#[trigger] self.0@[j]).evs() == T::vnums(value.0@[j]), forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.0@[j]).evs() == T::vnums(value.0@[j]) decreases __n0 - __i0
## core::signal|Signal|SizedVec<T,L>|assert_eq
loops: iter
begin: l_cateq::<T>(self.0@, other.0@);
inv0: invariant __s2 == &self, __s5 == &other, allw::<T>(self.0@), self.0@.len() == L::n(), allw::<T>(other.0@), other.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0, forall|j: int| honest() && 0 <= j < __n0 ==> (#[trigger] self.0@[j]).evs() == other.0@[j].evs(), forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.0@[j]).evs() == other.0@[j].evs() decreases __n0 - __i0
## core::signal|Signal|SizedVec<T,L>|inputize
loops: iter
inv0: invariant __s2 == &self, allw::<T>(self.0@), self.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0 decreases __n0 - __i0
## core::signal|Signal|SizedVec<T,L>|is_eq
loops: range
begin: l_cateq::<T>(self.0@, other.0@);
inv0: invariant T::eqok(), allw::<T>(self.0@), self.0@.len() == L::n(), allw::<T>(other.0@), other.0@.len() == L::n(), acc.wf(), acc.ev() == fb(eqpre::<T>(self.0@, other.0@, i as int))
end0: proof { l_fbmul(eqpre::<T>(self.0@, other.0@, i as int), self.0@[i as int].evs() == other.0@[i as int].evs()); assert(eqpre::<T>(self.0@, other.0@, i + 1) == (eqpre::<T>(self.0@, other.0@, i as int) && self.0@[i as int].evs() == other.0@[i as int].evs())); }
## core::signal|Signal|SizedVec<T,L>|linearize_builder
loops: iter
pre0: let ghost a0 = evl(acc@); let ghost w0 = wfl(acc@); proof { assert(self.0@.take(0) =~= Seq::<T>::empty()); }
inv0: invariant __s2 == &self, a0 == evl(old(acc)@), w0 == wfl(old(acc)@), allw::<T>(self.0@), self.0@.len() == L::n(), __n0 == L::n(), __i0 <= __n0, evl(acc@) == a0 + cat::<T>(self.0@.take(__i0 as int)), w0 ==> wfl(acc@) decreases __n0 - __i0
end0: proof { l_catstep::<T>(self.0@, __i0 as int); assert(a0 + cat::<T>(self.0@.take(__i0 as int)) + self.0@[__i0 as int].evs() =~= a0 + (cat::<T>(self.0@.take(__i0 as int)) + self.0@[__i0 as int].evs())); }
post0: proof { l_takeall(self.0@); }
