@area mux
@include num ring bits
%% raw
pub open spec fn muxsel(c: Seq<Num>, s0: Num, s1: Num, s2: Num) -> Num { c[bitn(s0) + 2 * bitn(s1) + 4 * bitn(s2)] }
pub open spec fn muxterm(c0: Num, c1: Num, c2: Num, c3: Num, c4: Num, c5: Num, c6: Num, c7: Num, s0: Num, s1: Num, s2: Num, s10: Num) -> Num {
  F!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * s10 + (c6 - c4 - c2 + c0) * s1 + (c5 - c4 - c1 + c0) * s0 + (c4 - c0)) * s2 + (c3 - c2 - c1 + c0) * s10 + (c2 - c0) * s1 + (c1 - c0) * s0 + c0 } }
pub proof fn l_mux(c: Seq<Num>, s0: Num, s1: Num, s2: Num, s10: Num) requires c.len() == 8, isbit(s0), isbit(s1), isbit(s2), s10 == fmul(s0, s1)
  ensures muxterm(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], s0, s1, s2, s10) == muxsel(c, s0, s1, s2)
{ broadcast use fieldax; let c0 = c[0]; let c1 = c[1]; let c2 = c[2]; let c3 = c[3]; let c4 = c[4]; let c5 = c[5]; let c6 = c[6]; let c7 = c[7];
    if s0 == F!{0} && s1 == F!{0} && s2 == F!{0} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 0 + (c6 - c4 - c2 + c0) * 0 + (c5 - c4 - c1 + c0) * 0 + (c4 - c0)) * 0 + (c3 - c2 - c1 + c0) * 0 + (c2 - c0) * 0 + (c1 - c0) * 0 + c0 == c0 } }
  if s0 == F!{0} && s1 == F!{0} && s2 == F!{1} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 0 + (c6 - c4 - c2 + c0) * 0 + (c5 - c4 - c1 + c0) * 0 + (c4 - c0)) * 1 + (c3 - c2 - c1 + c0) * 0 + (c2 - c0) * 0 + (c1 - c0) * 0 + c0 == c4 } }
  if s0 == F!{0} && s1 == F!{1} && s2 == F!{0} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 0 + (c6 - c4 - c2 + c0) * 1 + (c5 - c4 - c1 + c0) * 0 + (c4 - c0)) * 0 + (c3 - c2 - c1 + c0) * 0 + (c2 - c0) * 1 + (c1 - c0) * 0 + c0 == c2 } }
  if s0 == F!{0} && s1 == F!{1} && s2 == F!{1} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 0 + (c6 - c4 - c2 + c0) * 1 + (c5 - c4 - c1 + c0) * 0 + (c4 - c0)) * 1 + (c3 - c2 - c1 + c0) * 0 + (c2 - c0) * 1 + (c1 - c0) * 0 + c0 == c6 } }
  if s0 == F!{1} && s1 == F!{0} && s2 == F!{0} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 0 + (c6 - c4 - c2 + c0) * 0 + (c5 - c4 - c1 + c0) * 1 + (c4 - c0)) * 0 + (c3 - c2 - c1 + c0) * 0 + (c2 - c0) * 0 + (c1 - c0) * 1 + c0 == c1 } }
  if s0 == F!{1} && s1 == F!{0} && s2 == F!{1} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 0 + (c6 - c4 - c2 + c0) * 0 + (c5 - c4 - c1 + c0) * 1 + (c4 - c0)) * 1 + (c3 - c2 - c1 + c0) * 0 + (c2 - c0) * 0 + (c1 - c0) * 1 + c0 == c5 } }
  if s0 == F!{1} && s1 == F!{1} && s2 == F!{0} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 1 + (c6 - c4 - c2 + c0) * 1 + (c5 - c4 - c1 + c0) * 1 + (c4 - c0)) * 0 + (c3 - c2 - c1 + c0) * 1 + (c2 - c0) * 1 + (c1 - c0) * 1 + c0 == c3 } }
  if s0 == F!{1} && s1 == F!{1} && s2 == F!{1} { RING!{ ((c7 - c6 - c5 + c4 - c3 + c2 + c1 - c0) * 1 + (c6 - c4 - c2 + c0) * 1 + (c5 - c4 - c1 + c0) * 1 + (c4 - c0)) * 1 + (c3 - c2 - c1 + c0) * 1 + (c2 - c0) * 1 + (c1 - c0) * 1 + c0 == c7 } }
 }
## circuit::mux|||c_mux3
req: s@.len() == 3, forall|i: int| 0 <= i < c@.len() ==> (#[trigger] c@[i])@.len() == 8, forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).wf()
ens: r@.len() == c@.len(), wfl(r@), forall|i: int| 0 <= i < c@.len() && isbit(s@[0].ev()) && isbit(s@[1].ev()) && isbit(s@[2].ev()) ==> (#[trigger] r@[i]).ev() == muxsel(c@[i]@, s@[0].ev(), s@[1].ev(), s@[2].ev())
loops: range range
inv0: invariant forall|i: int| 0 <= i < c@.len() ==> (#[trigger] c@[i])@.len() == 8
inv1: invariant s@.len() == 3, forall|i: int| 0 <= i < c@.len() ==> (#[trigger] c@[i])@.len() == 8, forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]).wf(), s10.wf(), s10.ev() == fmul(s@[0].ev(), s@[1].ev()),
  res@.len() == i, wfl(res@), forall|j: int| 0 <= j < i && isbit(s@[0].ev()) && isbit(s@[1].ev()) && isbit(s@[2].ev()) ==> (#[trigger] res@[j]).ev() == muxsel(c@[j]@, s@[0].ev(), s@[1].ev(), s@[2].ev())
end1: proof { if isbit(s@[0].ev()) && isbit(s@[1].ev()) && isbit(s@[2].ev()) { l_mux(c@[i as int]@, s@[0].ev(), s@[1].ev(), s@[2].ev(), s10.ev()); } }
