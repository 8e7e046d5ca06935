@area cecc
@include num edw tupeq
@types circuit::ecc|type|CEdwardsPoint circuit::ecc|type|CMontgomeryPoint
%% raw
impl<'a> Clone for CEdwardsPoint<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> Clone for CMontgomeryPoint<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> CEdwardsPoint<'a> { pub open spec fn pt(&self) -> EdwardsPoint { EdwardsPoint { x: self.x.ev(), y: self.y.ev() } } }
impl<'a> CMontgomeryPoint<'a> { pub open spec fn pt(&self) -> MontgomeryPoint { MontgomeryPoint { x: self.x.ev(), y: self.y.ev() } } }
pub proof fn l_cdbl(p: EdwardsPoint) ensures ({ let x = p.x; let y = p.y; let d = cd(); let v = F!{ x * y }; let v2 = F!{ v * v }; F!{ v * 2 } == F!{ x * y + y * x } && F!{ (x + y)*(x + y) - v * 2 } == F!{ y*y + x*x } && F!{ d * v2 } == ee(p, p) })
{ let x = p.x; let y = p.y; let d = cd(); RING!{ x * y * 2 == x * y + y * x } RING!{ (x + y)*(x + y) - x * y * 2 == y*y + x*x } RING!{ d * (x*y*(x*y)) == d * x * x * y * y } }
pub proof fn l_cadd(p: EdwardsPoint, q: EdwardsPoint) ensures ({ let x = p.x; let y = p.y; let d = cd(); let v1 = F!{ x * q.y }; let v2 = F!{ q.x * y }; F!{ v1 + v2 } == F!{ x * q.y + y * q.x } && F!{ (x + y)*(q.x + q.y) - v1 - v2 } == F!{ y * q.y + x * q.x } && F!{ d * (v1 * v2) } == ee(p, q) })
{ let x = p.x; let y = p.y; let d = cd(); RING!{ x * q.y + q.x * y == x * q.y + y * q.x } RING!{ (x + y)*(q.x + q.y) - x * q.y - q.x * y == y * q.y + x * q.x } RING!{ d * (x * q.y * (q.x * y)) == d * x * q.x * y * q.y } }
pub proof fn l_oncurve_c(p: EdwardsPoint) ensures (F!{ `cd()` * (p.x*p.x) * (p.y * p.y) } == F!{ p.y*p.y - p.x*p.x - 1 }) == oncurve(p)
{ let d = cd(); let x = p.x; let y = p.y; if F!{ d * (x*x) * (y*y) } == F!{ y*y - x*x - 1 } { RING!{ y*y - x*x == 1 + d * (x*x) * (y*y) | d * (x*x) * (y*y) == y*y - x*x - 1 with -1 } }
  if oncurve(p) { RING!{ d * (x*x) * (y*y) == y*y - x*x - 1 | y*y - x*x == 1 + d * (x*x) * (y*y) with -1 } } }
## circuit::ecc||CEdwardsPoint|double
req: self.wf(), oncurve(self.pt())
ens: r.wf(), r.pt() == eadd(self.pt(), self.pt()), oncurve(r.pt())
begin: l_cdbl(self.pt()); l_complete(self.pt(), self.pt()); l_closed(self.pt(), self.pt());
## circuit::ecc||CEdwardsPoint|mul_by_cofactor
req: self.wf(), oncurve(self.pt())
ens: r.wf(), r.pt() == e8(self.pt()), oncurve(r.pt())
## circuit::ecc||CEdwardsPoint|add
req: self.wf(), p.wf(), oncurve(self.pt()), oncurve(p.pt())
ens: r.wf(), r.pt() == eadd(self.pt(), p.pt()), oncurve(r.pt())
begin: l_cadd(self.pt(), p.pt()); l_complete(self.pt(), p.pt()); l_closed(self.pt(), p.pt());
## circuit::ecc||CEdwardsPoint|assert_in_curve
req: self.wf(), honest() ==> oncurve(self.pt())
ens: oncurve(self.pt())
begin: l_oncurve_c(self.pt());
## circuit::ecc||CEdwardsPoint|into_montgomery
req: self.wf(), oncurve(self.pt()), self.pt().x != f0()
ens: r.wf(), r.pt() == emap(self.pt()), onmont(r.pt()), mmap(r.pt()) == self.pt()
begin: l_pm1(self.pt()); l_map(self.pt());
## circuit::ecc||CMontgomeryPoint|double
req: self.wf(), onmont(self.pt()), self.pt().x != f0()
ens: r.wf(), r.pt() == mdbl(self.pt()), onmont(r.pt()), r.pt() == emap(eadd(mmap(self.pt()), mmap(self.pt())))
begin: l_mdbl(self.pt());
## circuit::ecc||CMontgomeryPoint|add
req: self.wf(), p.wf(), onmont(self.pt()), onmont(p.pt()), self.pt().x != p.pt().x
ens: r.wf(), r.pt() == madd(self.pt(), p.pt()), onmont(r.pt()), r.pt() == emap(eadd(mmap(self.pt()), mmap(p.pt())))
begin: l_madd(self.pt(), p.pt());
## circuit::ecc||CMontgomeryPoint|into_edwards
req: self.wf(), onmont(self.pt())
ens: r.wf(), r.pt() == mmap(self.pt()), oncurve(r.pt())
begin: l_unmap(self.pt());
