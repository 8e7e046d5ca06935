@area bits
@include num
%% raw
use vstd::arithmetic::power2::*;
pub open spec fn bitn(a: Num) -> int { if a == f1() { 1 } else { 0 } }
/// the little-endian integer of a sequence of bits
pub open spec fn lesum(s: Seq<Num>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { lesum(s.drop_last()) + (bitn(s.last()) * pow2((s.len() - 1) as nat)) as nat } }
pub open spec fn allbits(s: Seq<Num>) -> bool { forall|i: int| 0 <= i < s.len() ==> isbit(#[trigger] s[i]) }
pub open spec fn bev<'a>(s: Seq<CBool<'a>>) -> Seq<Num> { s.map_values(|b: CBool<'a>| b.ev()) }
pub open spec fn bwf<'a>(s: Seq<CBool<'a>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub proof fn l_lestep(s: Seq<Num>, i: int) requires 0 <= i < s.len() ensures lesum(s.take(i + 1)) == lesum(s.take(i)) + bitn(s[i]) * pow2(i as nat), s.take(0) == Seq::<Num>::empty(), s.take(s.len() as int) == s
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<Num>::empty()); lemma_pow2_pos(i as nat); assert(bitn(s[i]) * pow2(i as nat) >= 0) by (nonlinear_arith) requires bitn(s[i]) >= 0; }
pub proof fn l_lebound(s: Seq<Num>) ensures lesum(s) < pow2(s.len()) decreases s.len()
{ if s.len() > 0 { l_lebound(s.drop_last()); lemma_pow2_unfold(s.len()); let b = bitn(s.last()); let p = pow2((s.len() - 1) as nat); assert(b * p <= p) by (nonlinear_arith) requires b == 0 || b == 1; } else { lemma2_to64(); } }
pub proof fn l_lezeros(s: Seq<Num>, z: Seq<Num>) requires forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == f0() ensures lesum(s + z) == lesum(s) decreases z.len()
{ broadcast use fieldax; if z.len() > 0 { assert((s + z).drop_last() =~= s + z.drop_last()); assert((s + z).last() == z.last()); l_lezeros(s, z.drop_last()); assert(bitn(f0()) == 0); assert(0 * pow2((s.len() + z.len() - 1) as nat) == 0); } else { assert(s + z =~= s); } }
