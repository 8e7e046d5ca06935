@area posnew
@include seedbox pos coll
%% raw
// TRUSTED: sampling an element of the field from a generator (rand / ff_ce): the element and the generator's next position are functions of its stream and position
pub uninterp spec fn draw(salt: Option<Seq<u8>>, k: int) -> (Num, int);
impl SeedboxBlake2 { #[verifier::external_body] pub fn gen(&mut self) -> (r: Num) requires old(self).wf() ensures final(self).wf(), final(self).sl() == old(self).sl(), r == draw(old(self).sl(), old(self).at()).0, final(self).at() == draw(old(self).sl(), old(self).at()).1 { unimplemented!() } }
/// where the generator stands after n draws
pub open spec fn dpos(salt: Option<Seq<u8>>, n: int) -> int decreases n when n >= 0 { if n == 0 { 0 } else { draw(salt, dpos(salt, n - 1)).1 } }
pub open spec fn drawn(salt: Option<Seq<u8>>, n: int) -> Num { draw(salt, dpos(salt, n)).0 }
/// TRUSTED rendering: the text of the parameter description, a function of the three numbers
pub uninterp spec fn posdesc(t: usize, f: usize, p: usize) -> Seq<u8>;
#[verifier::external_body]
pub fn vposdesc(t: usize, f: usize, p: usize) -> (r: &'static [u8]) ensures r@ == posdesc(t, f, p) { unimplemented!() }
pub open spec fn posseed(t: usize, f: usize, p: usize) -> Option<Seq<u8>> { Some(digest(posdesc(t, f, p))) }
pub open spec fn mrow(s: Option<Seq<u8>>, t: int, b: int, i: int, r: Seq<Num>) -> bool { r.len() == t && forall|j: int| 0 <= j < t ==> #[trigger] r[j] == drawn(s, b + i * t + j) }
## native::poseidon||PoseidonParams|new
req: f + p <= usize::MAX
ens: r.t == t, r.f == f, r.p == p, t > 0 ==> r.ok(), r.c@.len() == f + p, forall|i: int| 0 <= i < f + p ==> #[trigger] r.c@[i] == drawn(posseed(t, f, p), i), r.m@.len() == t, forall|i: int| 0 <= i < t ==> mrow(posseed(t, f, p), t as int, f + p, i, (#[trigger] r.m@[i])@)
loops: iter iter iter
subst: let mut __o1 = Vec :: new () => let mut __o1 : Vec < Vec < Num > > = Vec :: new ()
 __export :: must_use ({ format (format_args ! ("fawkes_poseidon(t={0},f={1},p={2})" , t , f , p)) }) . as_bytes () => vposdesc (t, f, p)
inv0: invariant seedbox.wf(), seedbox.sl() == posseed(t, f, p), __i0 <= __n0, __n0 == f + p, __o0@.len() == __i0, seedbox.at() == dpos(posseed(t, f, p), __i0 as int), forall|i: int| 0 <= i < __i0 ==> #[trigger] __o0@[i] == drawn(posseed(t, f, p), i) decreases __n0 - __i0
inv1: invariant seedbox.wf(), seedbox.sl() == posseed(t, f, p), __i1 <= __n1, __n1 == t, __o1@.len() == __i1, seedbox.at() == dpos(posseed(t, f, p), f + p + __i1 * t), forall|i: int| 0 <= i < __i1 ==> mrow(posseed(t, f, p), t as int, f + p, i, (#[trigger] __o1@[i])@) decreases __n1 - __i1
inv2: invariant seedbox.wf(), seedbox.sl() == posseed(t, f, p), __i2 <= __n2, __n2 == t, __o2@.len() == __i2, __i1 >= 0, __i1 * t >= 0, seedbox.at() == dpos(posseed(t, f, p), f + p + __i1 * t + __i2), forall|j: int| 0 <= j < __i2 ==> #[trigger] __o2@[j] == drawn(posseed(t, f, p), f + p + __i1 * t + j) decreases __n2 - __i2
pre2: proof { assert(__i1 * t >= 0) by (nonlinear_arith) requires __i1 >= 0, t >= 0; assert((__i1 + 1) * t == __i1 * t + t) by (nonlinear_arith); }
pre1: proof { assert(0 * t == 0); }
