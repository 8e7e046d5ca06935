@area edw
@include native_num ring intview
@types native::ecc|type|EdwardsPoint=#[derive(Clone,~Copy)] native::ecc|type|EdwardsPointEx=#[derive(Clone,~Copy)] native::ecc|type|MontgomeryPoint=#[derive(Clone,~Copy)]
%% raw
// the curve -x^2 + y^2 = 1 + d x^2 y^2: any one with these parameters
pub uninterp spec fn cd() -> Num;
pub uninterp spec fn ca() -> Num;
pub uninterp spec fn cb() -> Num;
pub uninterp spec fn cu() -> Num;
pub uninterp spec fn cg() -> EdwardsPoint;
pub uninterp spec fn si() -> Num;
// TRUSTED facts about the parameters (evaluated for both shipped parameter sets by the checks of C08 and C23): d is not a square, -1 is one;
// ca and cb are those of the birationally equivalent Montgomery curve
pub axiom fn ax_d(y: Num) ensures fmul(y, y) != cd();
pub axiom fn ax_si() ensures fmul(si(), si()) == fneg(f1());
pub axiom fn ax_mont() ensures F!{ `ca()` * (1 + `cd()`) } == F!{ 2 * (1 - `cd()`) }, F!{ `cb()` * (1 + `cd()`) } == F!{ - 4 };
#[verifier::external_body]
pub struct Params { x: u64 }
impl Params {
  // TRUSTED: the parameter object carries these values (JubJub*::new and its accessors are under contract below)
  #[verifier::external_body] pub fn edwards_d(&self) -> (r: Num) ensures r == cd() { unimplemented!() }
  #[verifier::external_body] pub fn montgomery_a(&self) -> (r: Num) ensures r == ca() { unimplemented!() }
  #[verifier::external_body] pub fn montgomery_b(&self) -> (r: Num) ensures r == cb() { unimplemented!() }
  #[verifier::external_body] pub fn montgomery_u(&self) -> (r: Num) ensures r == cu() { unimplemented!() }
  #[verifier::external_body] pub fn edwards_g(&self) -> (r: &EdwardsPoint) ensures *r == cg() { unimplemented!() }
}
impl PartialEqSpecImpl for EdwardsPoint { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &EdwardsPoint) -> bool { self == o } }
impl PartialEqSpecImpl for MontgomeryPoint { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &MontgomeryPoint) -> bool { self == o } }
impl PartialEqSpecImpl for EdwardsPointEx { open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &EdwardsPointEx) -> bool { arbitrary() } }
pub open spec fn onc(x: Num, y: Num) -> bool { F!{ y*y - x*x } == F!{ 1 + `cd()` * (x*x) * (y*y) } }
pub open spec fn oncurve(p: EdwardsPoint) -> bool { onc(p.x, p.y) }
pub open spec fn ee(p: EdwardsPoint, q: EdwardsPoint) -> Num { F!{ `cd()` * p.x * q.x * p.y * q.y } }
/// the addition law
pub open spec fn eadd(p: EdwardsPoint, q: EdwardsPoint) -> EdwardsPoint { EdwardsPoint { x: fdiv(F!{ p.x * q.y + p.y * q.x }, F!{ 1 + `ee(p, q)` }), y: fdiv(F!{ p.y * q.y + p.x * q.x }, F!{ 1 - `ee(p, q)` }) } }
pub open spec fn ezero() -> EdwardsPoint { EdwardsPoint { x: f0(), y: f1() } }
pub open spec fn eneg(p: EdwardsPoint) -> EdwardsPoint { EdwardsPoint { x: fneg(p.x), y: p.y } }
pub open spec fn exwf(p: EdwardsPointEx) -> bool { p.z != f0() && F!{ p.z * p.t } == F!{ p.x * p.y } }
pub open spec fn exok(p: EdwardsPointEx) -> bool { exwf(p) && oncurve(aff(p)) }
pub open spec fn aff(p: EdwardsPointEx) -> EdwardsPoint { EdwardsPoint { x: fdiv(p.x, p.z), y: fdiv(p.y, p.z) } }
/// (s x1 + e y1)^2 = d (x1 y1)^2 (s x2 + y2)^2 when d x1 x2 y1 y2 = e = +-1
pub proof fn l_comp1(x1: Num, y1: Num, x2: Num, y2: Num, e: Num, s: Num, d: Num) requires F!{ y1*y1 - x1*x1 } == F!{ 1 + d*(x1*x1)*(y1*y1) }, F!{ y2*y2 - x2*x2 } == F!{ 1 + d*(x2*x2)*(y2*y2) }, F!{ s*s } == F!{ -1 }, F!{ d*x1*x2*y1*y2 } == e, F!{ e*e } == f1()
  ensures F!{ (s*x1 + e*y1) * (s*x1 + e*y1) } == F!{ d * (x1*y1*(s*x2 + y2)) * (x1*y1*(s*x2+y2)) }
{ RING!{ (s*x1 + e*y1) * (s*x1 + e*y1) == d * (x1*y1*(s*x2 + y2)) * (x1*y1*(s*x2+y2)) | y1*y1 - x1*x1 == 1 + d*(x1*x1)*(y1*y1) with 1 | y2*y2 - x2*x2 == 1 + d*(x2*x2)*(y2*y2) with - d*x1^2*y1^2 | s*s == -1 with x1^2 - d*x1^2*y1^2*x2^2 | d*x1*x2*y1*y2 == e with - (d*x1*x2*y1*y2 + e) - 2*s*x1*y1 | e*e == 1 with y1^2 - 1 } }
/// d times a non-zero square is not a square
pub proof fn l_nonsq(a: Num, b: Num) requires fmul(a, a) == F!{ `cd()` * b * b } ensures b == f0()
{ broadcast use fieldax; if b != f0() { let c = fdiv(a, b); let d = cd(); assert(fmul(c, b) == a); 
    RING!{ c * c * (b * b) == d * (b * b) | c * b == a with c * b + a | a * a == d * b * b with 1 }
    l_mulcancel(fmul(c, c), d, fmul(b, b)); ax_d(c); } }
pub proof fn l_comp2(p: EdwardsPoint, q: EdwardsPoint, e: Num) requires oncurve(p), oncurve(q), ee(p, q) == e, fmul(e, e) == f1() ensures false
{ hide(fint); broadcast use fieldax; let d = cd(); let s = si(); ax_si(); l_char2(); l_fint01();
  let x1 = p.x; let y1 = p.y; let x2 = q.x; let y2 = q.y; let n1 = fneg(p.y); let n2 = fneg(q.y);
  l_comp1(x1, y1, x2, y2, e, s, d); let b = F!{ x1*y1*(s*x2 + y2) }; l_nonsq(F!{ s*x1 + e*y1 }, b);
  RING!{ (-y1)*(-y1) == y1*y1 } RING!{ (-y2)*(-y2) == y2*y2 } RING!{ d*x1*x2*(-y1)*(-y2) == d*x1*x2*y1*y2 }
  l_comp1(x1, n1, x2, n2, e, s, d); let b2 = F!{ x1*n1*(s*x2 + n2) }; l_nonsq(F!{ s*x1 + e*n1 }, b2);
  // x1, y1 are not zero, so both s x2 + y2 and s x2 - y2 are
  if fmul(x1, y1) == f0() { RING!{ d*x1*x2*y1*y2 == (x1*y1)*(d*x2*y2) } }
  if fmul(x1, n1) == f0() { l_neg_mul(y1, x1); RING!{ -(-(x1*y1)) == x1*y1 } l_neg0(); }
  assert(F!{ s*x2 + y2 } == f0()); assert(F!{ s*x2 + n2 } == f0());
  RING!{ 2 * y2 == 0 | s*x2 + y2 == 0 with 1 | s*x2 + (-y2) == 0 with -1 }
  assert(y2 == f0()); RING!{ d*x1*x2*y1*0 == 0 } }
/// the addition law is defined on all pairs of points of the curve
pub proof fn l_complete(p: EdwardsPoint, q: EdwardsPoint) requires oncurve(p), oncurve(q) ensures F!{ 1 + `ee(p, q)` } != f0(), F!{ 1 - `ee(p, q)` } != f0()
{ broadcast use fieldax; let e = ee(p, q); if F!{ 1 + e } == f0() { RING!{ e * e == 1 | 1 + e == 0 with e - 1 } l_comp2(p, q, e); } if F!{ 1 - e } == f0() { RING!{ e * e == 1 | 1 - e == 0 with -e - 1 } l_comp2(p, q, e); } }
pub proof fn l_closure_alg(x1: Num, y1: Num, x2: Num, y2: Num, d: Num) requires F!{ y1*y1 - x1*x1 } == F!{ 1 + d*(x1*x1)*(y1*y1) }, F!{ y2*y2 - x2*x2 } == F!{ 1 + d*(x2*x2)*(y2*y2) }
  ensures ({ let n = F!{ x1*y2 + y1*x2 }; let m = F!{ y1*y2 + x1*x2 }; let e = F!{ d*x1*x2*y1*y2 }; let u = F!{ 1 + e }; let v = F!{ 1 - e }; F!{ (m*u)*(m*u) - (n*v)*(n*v) } == F!{ (u*v)*(u*v) + d*(n*n)*(m*m) } })
{ RING!{ ((y1*y2+x1*x2)*(1+d*x1*x2*y1*y2))*((y1*y2+x1*x2)*(1+d*x1*x2*y1*y2)) - ((x1*y2+y1*x2)*(1-d*x1*x2*y1*y2))*((x1*y2+y1*x2)*(1-d*x1*x2*y1*y2)) == ((1+d*x1*x2*y1*y2)*(1-d*x1*x2*y1*y2))*((1+d*x1*x2*y1*y2)*(1-d*x1*x2*y1*y2)) + d*((x1*y2+y1*x2)*(x1*y2+y1*x2))*((y1*y2+x1*x2)*(y1*y2+x1*x2))
  | y1*y1 - x1*x1 == 1 + d*(x1*x1)*(y1*y1) with d^3*x1^2*x2^4*y1^2*y2^4 - d^2*x1^2*x2^4*y2^4 + d^2*x2^4*y1^2*y2^4 - d^2*x2^4*y2^4 - d*x1^2*x2^4*y2^2 + d*x1^2*x2^2*y2^4 + d*x2^4*y1^2*y2^2 - 2*d*x2^4*y2^4 - d*x2^2*y1^2*y2^4 - 2*d*x2^2*y2^2 - 2*x2^4*y2^2 + x2^4 + 2*x2^2*y2^4 - 4*x2^2*y2^2 + y2^4
  | y2*y2 - x2*x2 == 1 + d*(x2*x2)*(y2*y2) with d*x1^4*x2^2*y2^2 + 2*d*x1^2*x2^2*y2^2 + d*x2^2*y1^4*y2^2 - 2*d*x2^2*y1^2*y2^2 + d*x2^2*y2^2 + 2*x1^2*x2^2*y2^2 - x1^2*x2^2 + x1^2*y2^2 - 2*x2^2*y1^2*y2^2 + x2^2*y1^2 + 2*x2^2*y2^2 - x2^2 - y1^2*y2^2 + y2^2 + 1 } }
/// the curve is closed under addition
pub proof fn l_closed(p: EdwardsPoint, q: EdwardsPoint) requires oncurve(p), oncurve(q) ensures oncurve(eadd(p, q))
{ broadcast use fieldax; l_complete(p, q); let d = cd(); let e = ee(p, q); let u = F!{ 1 + e }; let v = F!{ 1 - e }; let n = F!{ p.x * q.y + p.y * q.x }; let m = F!{ p.y * q.y + p.x * q.x };
  let x = fdiv(n, u); let y = fdiv(m, v); assert(fmul(x, u) == n && fmul(y, v) == m);
  l_closure_alg(p.x, p.y, q.x, q.y, d);
  let w = fmul(fmul(u, v), fmul(u, v)); assert(fmul(u, v) != f0()); assert(w != f0());
  RING!{ (y*y - x*x) * ((u*v)*(u*v)) == (m*u)*(m*u) - (n*v)*(n*v) | y*v == m with u*u*(y*v + m) | x*u == n with -(v*v*(x*u + n)) }
  RING!{ (1 + d*(x*x)*(y*y)) * ((u*v)*(u*v)) == (u*v)*(u*v) + d*(n*n)*(m*m) | x*u == n with d*(y*v)*(y*v)*(x*u + n) | y*v == m with d*(n*n)*(y*v + m) }
  l_mulcancel(F!{ y*y - x*x }, F!{ 1 + d*(x*x)*(y*y) }, w); }
pub proof fn l_eadd_comm(p: EdwardsPoint, q: EdwardsPoint) ensures eadd(p, q) == eadd(q, p)
{ broadcast use fieldax; let d = cd(); RING!{ d * p.x * q.x * p.y * q.y == d * q.x * p.x * q.y * p.y } RING!{ p.x * q.y + p.y * q.x == q.x * p.y + q.y * p.x } RING!{ p.y * q.y + p.x * q.x == q.y * p.y + q.x * p.x } }
pub proof fn l_eadd0(p: EdwardsPoint) ensures eadd(p, ezero()) == p, oncurve(ezero())
{ broadcast use fieldax; let d = cd(); let px = p.x; let py = p.y; RING!{ d * px * 0 * py * 1 == 0 } RING!{ px * 1 + py * 0 == px } RING!{ py * 1 + px * 0 == py } RING!{ 1 + 0 == 1 } RING!{ 1 - 0 == 1 } l_div1(px); l_div1(py); RING!{ 1*1 - 0*0 == 1 + d*(0*0)*(1*1) } }
pub proof fn l_div1(a: Num) ensures fdiv(a, f1()) == a { broadcast use fieldax; l_divunique(a, a, f1()); }
pub proof fn l_eneg(p: EdwardsPoint) requires oncurve(p) ensures oncurve(eneg(p)), eadd(p, eneg(p)) == ezero()
{ broadcast use fieldax; let d = cd(); let x = p.x; let y = p.y; RING!{ (-x)*(-x) == x*x } assert(oncurve(eneg(p))); l_complete(p, eneg(p)); let e = ee(p, eneg(p)); 
  RING!{ x * y + y * (-x) == 0 } RING!{ y * y + x * (-x) == 1 - d*x*(-x)*y*y | y*y - x*x == 1 + d*(x*x)*(y*y) with 1 } l_divunique(f0(), f0(), F!{ 1 + e }); l_divunique(f1(), F!{ 1 - e }, F!{ 1 - e }); }
/// extended coordinates: what the affine points of the operands look like
pub proof fn l_ex(p: EdwardsPointEx) requires exwf(p) ensures p.x == fmul(aff(p).x, p.z), p.y == fmul(aff(p).y, p.z), p.t == F!{ `aff(p).x` * `aff(p).y` * p.z }
{ broadcast use fieldax; let x = aff(p).x; let y = aff(p).y; RING!{ p.t * p.z == x * y * p.z * p.z | p.z * p.t == p.x * p.y with 1 | x * p.z == p.x with - p.y | y * p.z == p.y with - x * p.z } l_mulcancel(p.t, F!{ x * y * p.z }, p.z); }
/// W N f / (W u g): the affine quotient of an extended result
pub proof fn l_quot(q: Num, n: Num, d: Num, w: Num, o: Num, x3: Num, z3: Num) requires q == fdiv(n, d), d != f0(), x3 == F!{ w*n*(w*o) }, z3 == F!{ w*o*(w*d) }, w != f0(), o != f0() ensures z3 != f0(), fdiv(x3, z3) == q
{ broadcast use fieldax; assert(fmul(q, d) == n); RING!{ q * (w*o*(w*d)) == w*n*(w*o) | q*d == n with w*w*o } assert(z3 != f0()); l_divunique(q, x3, z3); }
pub open spec fn m1() -> EdwardsPoint { EdwardsPoint { x: f0(), y: fneg(f1()) } }
/// the map to the Montgomery curve and back
pub open spec fn emap(p: EdwardsPoint) -> MontgomeryPoint { if p.x == f0() { MontgomeryPoint { x: f0(), y: f0() } } else { MontgomeryPoint { x: fdiv(F!{ 1 + p.y }, F!{ 1 - p.y }), y: fdiv(fdiv(F!{ 1 + p.y }, F!{ 1 - p.y }), p.x) } } }
pub open spec fn mmap(p: MontgomeryPoint) -> EdwardsPoint { if p.x == f0() { m1() } else { EdwardsPoint { x: fdiv(p.x, p.y), y: fdiv(F!{ p.x - 1 }, F!{ p.x + 1 }) } } }
pub open spec fn onm(x: Num, y: Num) -> bool { F!{ `cb()` * (y*y) } == F!{ x*x*x + `ca()`*(x*x) + x } }
pub open spec fn onmont(p: MontgomeryPoint) -> bool { onm(p.x, p.y) }
pub proof fn l_d1() ensures F!{ 1 + `cd()` } != f0() { broadcast use fieldax; ax_si(); let d = cd(); if F!{ 1 + d } == f0() { let s = si(); RING!{ s*s == d | s*s == -1 with 1 | 1 + d == 0 with -1 } ax_d(s); } }
pub proof fn l_pm1(p: EdwardsPoint) requires oncurve(p) ensures (p.y == f1() || p.y == fneg(f1())) == (p.x == f0()), F!{ 1 - p.y } == f0() <==> p.y == f1(), F!{ 1 + p.y } == f0() <==> p.y == fneg(f1())
{ broadcast use fieldax; l_d1(); let d = cd(); let x = p.x; let y = p.y;
  if fmul(y, y) == f1() { RING!{ x*x*(1 + d) == 0 | y*y - x*x == 1 + d*(x*x)*(y*y) with -1 | y*y == 1 with 1 - d*(x*x) } }
  if y == f1() || y == fneg(f1()) { RING!{ (-1)*(-1) == 1 } RING!{ 1*1 == 1 } }
  if x == f0() { RING!{ (y - 1)*(y + 1) == 0 | y*y - 0*0 == 1 + d*(0*0)*(y*y) with 1 } if F!{ y - 1 } != f0() { RING!{ y == -1 | y + 1 == 0 with 1 } } }
  if F!{ 1 + y } == f0() { RING!{ y == -1 | 1 + y == 0 with 1 } } if y == fneg(f1()) { RING!{ 1 + (-1) == 0 } } }
/// the map of a point other than the neutral one is on the Montgomery curve, and comes back
pub proof fn l_map(p: EdwardsPoint) requires oncurve(p), p != ezero() ensures onmont(emap(p)), mmap(emap(p)) == p, p.x != f0() ==> emap(p).x != f0() && emap(p).y != f0() && F!{ `emap(p).x` + 1 } != f0()
{ hide(fint); broadcast use fieldax; l_pm1(p); l_fint01(); ax_mont(); l_char2(); l_d1(); let a = ca(); let b = cb(); let d = cd(); let x = p.x; let y = p.y;
  if x == f0() { RING!{ b*(0*0) == 0*0*0 + a*(0*0) + 0 } } else {
   let u = emap(p).x; let v = emap(p).y; let n = F!{ 1 + y }; let m = F!{ 1 - y }; assert(fmul(u, m) == n); assert(fmul(v, x) == u);
   if u == f0() { assert(n == f0()); } if v == f0() { }
   if F!{ u + 1 } == f0() { RING!{ 2 == 0 | u*(1 - y) == 1 + y with -1 | u + 1 == 0 with 1 - y } }
   l_divunique(x, u, v);
   RING!{ y * (u + 1) == u - 1 | u*(1 - y) == 1 + y with -1 } l_divunique(y, F!{ u - 1 }, F!{ u + 1 });
   // x^2 (1+d) m^3 * (b v^2 - u^3 - a u^2 - u) = 0
   let g = F!{ b * (v*v) }; let h = F!{ u*u*u + a*(u*u) + u };
   let k = F!{ x*x*(1+d)*(m*m*m) };
   RING!{ b*(v*v) * (x*x*(1+d)*(m*m*m)) == (-4)*(n*n*m) | b*(1+d) == -4 with v*v*x*x*m^3 | v*x == u with -4*m^3*(v*x+u) | u*m == n with -4*m*(u*m + n) }
   RING!{ (u*u*u + a*(u*u) + u)*(x*x*(1+d)*(m*m*m)) == x*x*((1+d)*n^3 + 2*(1-d)*n^2*m + (1+d)*n*m^2) | a*(1+d) == 2*(1-d) with x*x*u*u*m^3 | u*m == n with x*x*((1+d)*((u*m)^2 + u*m*n + n^2) + 2*(1-d)*m*(u*m + n) + (1+d)*m^2) }
   RING!{ (-4)*((1+y)*(1+y)*(1-y)) == x*x*((1+d)*(1+y)^3 + 2*(1-d)*(1+y)^2*(1-y) + (1+d)*(1+y)*(1-y)^2) | y*y - x*x == 1 + d*(x*x)*(y*y) with 4*(1+y) }
   assert(fmul(x, x) != f0()); assert(fmul(fmul(m, m), m) != f0()); assert(k != f0()); l_mulcancel(g, h, k);
  } }
pub open spec fn e8(p: EdwardsPoint) -> EdwardsPoint { let a = eadd(p, p); let b = eadd(a, a); eadd(b, b) }
pub proof fn l_exeq(x1: Num, z1: Num, x2: Num, z2: Num) requires z1 != f0(), z2 != f0() ensures (fmul(x1, z2) == fmul(x2, z1)) == (fdiv(x1, z1) == fdiv(x2, z2))
{ broadcast use fieldax; let a = fdiv(x1, z1); let b = fdiv(x2, z2); assert(fmul(a, z1) == x1 && fmul(b, z2) == x2); RING!{ a*z1*z2 == a*(z1*z2) } RING!{ b*z2*z1 == b*(z1*z2) } if fmul(x1, z2) == fmul(x2, z1) { l_mulcancel(a, b, fmul(z1, z2)); } }
pub proof fn l_exon(p: EdwardsPointEx) requires exwf(p) ensures (F!{ p.y*p.y - p.x*p.x } == F!{ p.z*p.z + `cd()`*(p.t*p.t) }) == oncurve(aff(p))
{ broadcast use fieldax; l_ex(p); let x = aff(p).x; let y = aff(p).y; let z = p.z; let d = cd(); RING!{ (y*z)*(y*z) - (x*z)*(x*z) == (y*y - x*x)*(z*z) } RING!{ z*z + d*((x*y*z)*(x*y*z)) == (1 + d*(x*x)*(y*y))*(z*z) }
  if F!{ p.y*p.y - p.x*p.x } == F!{ p.z*p.z + d*(p.t*p.t) } { l_mulcancel(F!{ y*y - x*x }, F!{ 1 + d*(x*x)*(y*y) }, fmul(z, z)); } }
pub proof fn l_exz(p: EdwardsPointEx) requires exwf(p) ensures (p.x == f0() && p.y == p.z) == (aff(p) == ezero())
{ broadcast use fieldax; l_ex(p); if p.y == p.z { l_divunique(f1(), p.y, p.z); } if p.x == f0() { l_divunique(f0(), p.x, p.z); } }
pub proof fn l_exadd(p: EdwardsPointEx, q: EdwardsPointEx, r: EdwardsPointEx)
  requires exwf(p), exwf(q), oncurve(aff(p)), oncurve(aff(q)), ({ let h = F!{ p.y*q.y + p.x*q.x }; let e = F!{ (p.x + p.y)*(q.x + q.y) - h }; let c = F!{ `cd()`*p.t*q.t }; let f = F!{ p.z*q.z - c }; let g = F!{ p.z*q.z + c }; r.x == fmul(e, f) && r.y == fmul(g, h) && r.t == fmul(e, h) && r.z == fmul(f, g) })
  ensures exwf(r), aff(r) == eadd(aff(p), aff(q))
{ broadcast use fieldax; l_ex(p); l_ex(q); l_complete(aff(p), aff(q)); let d = cd(); let x1 = aff(p).x; let y1 = aff(p).y; let x2 = aff(q).x; let y2 = aff(q).y; let z1 = p.z; let z2 = q.z; let w = fmul(z1, z2);
  let n = F!{ x1*y2 + y1*x2 }; let m = F!{ y1*y2 + x1*x2 }; let u = F!{ 1 + d*x1*x2*y1*y2 }; let v = F!{ 1 - d*x1*x2*y1*y2 };
  RING!{ (x1*z1 + y1*z1)*(x2*z2 + y2*z2) - ((y1*z1)*(y2*z2) + (x1*z1)*(x2*z2)) == z1*z2*(x1*y2 + y1*x2) }
  RING!{ (y1*z1)*(y2*z2) + (x1*z1)*(x2*z2) == z1*z2*(y1*y2 + x1*x2) }
  RING!{ z1*z2 - d*(x1*y1*z1)*(x2*y2*z2) == z1*z2*(1 - d*x1*x2*y1*y2) } RING!{ z1*z2 + d*(x1*y1*z1)*(x2*y2*z2) == z1*z2*(1 + d*x1*x2*y1*y2) }
  l_quot(fdiv(n, u), n, u, w, v, r.x, r.z);
  RING!{ (w*v)*(w*u) == (w*u)*(w*v) } RING!{ (w*u)*(w*m) == (w*m)*(w*u) } l_quot(fdiv(m, v), m, v, w, u, r.y, r.z);
  RING!{ (w*v)*(w*u)*((w*n)*(w*m)) == (w*n)*(w*v)*((w*u)*(w*m)) } }
pub proof fn l_exdbl(p: EdwardsPointEx, r: EdwardsPointEx)
  requires exwf(p), oncurve(aff(p)), ({ let a = F!{ p.x*p.x }; let b = F!{ p.y*p.y }; let c = F!{ p.z*p.z + p.z*p.z }; let d = fneg(a); let e = F!{ (p.x + p.y)*(p.x + p.y) - a - b }; let g = F!{ d + b }; let f = F!{ g - c }; let h = F!{ d - b }; r.x == fmul(e, f) && r.y == fmul(g, h) && r.t == fmul(e, h) && r.z == fmul(f, g) })
  ensures exwf(r), aff(r) == eadd(aff(p), aff(p))
{ broadcast use fieldax; l_ex(p); l_complete(aff(p), aff(p)); let d = cd(); let x = aff(p).x; let y = aff(p).y; let z = p.z; let w = fmul(z, z);
  let n = F!{ x*y + y*x }; let m = F!{ y*y + x*x }; let u = F!{ 1 + d*x*x*y*y }; let v = F!{ 1 - d*x*x*y*y }; let nv = fneg(v); let nm = fneg(m);
  RING!{ (x*z + y*z)*(x*z + y*z) - (x*z)*(x*z) - (y*z)*(y*z) == z*z*(x*y + y*x) }
  RING!{ -((x*z)*(x*z)) + (y*z)*(y*z) == z*z*(1 + d*x*x*y*y) | y*y - x*x == 1 + d*(x*x)*(y*y) with z*z }
  RING!{ z*z*(1 + d*x*x*y*y) - (z*z + z*z) == z*z*(-(1 - d*x*x*y*y)) }
  RING!{ -((x*z)*(x*z)) - (y*z)*(y*z) == z*z*(-(y*y + x*x)) }
  if nv == f0() { l_neg0(); RING!{ -(-v) == v } }
  l_quot(fdiv(n, u), n, u, w, nv, r.x, r.z);
  let q = fdiv(m, v); RING!{ q * (-v) == -m | q * v == m with -1 } l_divunique(q, nm, nv);
  RING!{ (w*u)*(w*nm) == (w*nm)*(w*u) } RING!{ (w*nv)*(w*u) == (w*u)*(w*nv) } l_quot(q, nm, nv, w, u, r.y, r.z);
  RING!{ (w*nv)*(w*u)*((w*n)*(w*nm)) == (w*n)*(w*nv)*((w*u)*(w*nm)) } }
/// the Montgomery curve has no point with x = -1, and y = 0 only at (0, 0); every point comes from the Edwards curve
pub proof fn l_unmap(q: MontgomeryPoint) requires onmont(q) ensures oncurve(mmap(q)), mmap(q) != ezero(), emap(mmap(q)) == q, q.x != f0() ==> q.y != f0() && mmap(q).x != f0(), q.y == f0() ==> q.x == f0(), F!{ q.x + 1 } != f0()
{ hide(fint); broadcast use fieldax; l_char2(); ax_mont(); l_d1(); ax_si(); l_fint01(); let a = ca(); let b = cb(); let d = cd(); let s = si(); let u = q.x; let v = q.y;
  RING!{ 4 == 2*2 } let four = fint(4); if fneg(four) == f0() { l_neg0(); RING!{ -(-four) == four } }
  if b == f0() { RING!{ 0*(1 + d) == 0 } RING!{ -4 == -four | four == 4 with 1 } }
  if F!{ u + 1 } == f0() {
    // b v^2 = a - 2, b d = a - 2
    RING!{ (b*(v*v))*(1+d) == (b*d)*(1+d) | b*(v*v) == u*u*u + a*(u*u) + u with 1+d | u + 1 == 0 with (1+d)*(u*u - u + 1 + a*(u - 1) + 1) | a*(1+d) == 2*(1-d) with 1 | b*(1+d) == -4 with -d }
    l_mulcancel(fmul(b, fmul(v, v)), fmul(b, d), F!{ 1 + d }); l_mulcancel(fmul(v, v), d, b); ax_d(v); }
  if v == f0() && u != f0() {
    RING!{ u*u*u + a*(u*u) + u == 0 | b*(0*0) == u*u*u + a*(u*u) + u with -1 }
    RING!{ ((u+1)*(u+1))*u == d*(s*(u-1))*(s*(u-1))*u | u*u*u + a*(u*u) + u == 0 with 1 + d | a*(1+d) == 2*(1-d) with -(u*u) | s*s == -1 with -(d*(u-1)^2*u) }
    l_mulcancel(F!{ (u+1)*(u+1) }, F!{ d*(s*(u-1))*(s*(u-1)) }, u); l_nonsq(F!{ u + 1 }, F!{ s*(u-1) });
    if s == f0() { RING!{ 1 == 0 | 0*0 == -1 with 1 } }
    assert(F!{ u - 1 } == f0()); RING!{ (u+1)*(u+1) == 4 | u - 1 == 0 with u + 3 } RING!{ d*(s*0)*(s*0) == 0 } }
  if u == f0() { RING!{ b*(v*v) == 0 | b*(v*v) == 0*0*0 + a*(0*0) + 0 with 1 } l_neg0(); RING!{ (-1)*(-1) - 0*0 == 1 + d*(0*0)*((-1)*(-1)) } assert(oncurve(m1()));
    if fneg(f1()) == f1() { RING!{ 2 == 0 | -1 == 1 with -1 } } }
  else {
    let x = fdiv(u, v); let y = fdiv(F!{ u - 1 }, F!{ u + 1 }); let w = F!{ u + 1 };
    assert(fmul(x, v) == u && fmul(y, w) == F!{ u - 1 });
    if x == f0() { }
    RING!{ (y*y - x*x)*((v*v)*(w*w)*u) == ((u-1)*(u-1)*(v*v) - u*u*(w*w))*u | y*w == u - 1 with (y*w + u - 1)*v*v*u | x*v == u with -(x*v + u)*w*w*u }
    RING!{ (1 + d*(x*x)*(y*y))*((v*v)*(w*w)*u) == (v*v*(w*w) + d*(u*u)*((u-1)*(u-1)))*u | x*v == u with d*(y*w)*(y*w)*(x*v+u)*u | y*w == u - 1 with d*u*u*(y*w + u - 1)*u }
    RING!{ ((u-1)*(u-1)*(v*v) - u*u*((u+1)*(u+1)))*u == (v*v*((u+1)*(u+1)) + d*(u*u)*((u-1)*(u-1)))*u | b*(v*v) == u*u*u + a*(u*u) + u with (1+d)*u*u | b*(1+d) == -4 with -(v*v*u*u) | a*(1+d) == 2*(1-d) with u^4 }
    assert(F!{ (v*v)*(w*w)*u } != f0()); l_mulcancel(F!{ y*y - x*x }, F!{ 1 + d*(x*x)*(y*y) }, F!{ (v*v)*(w*w)*u });
    let p = mmap(q); assert(oncurve(p)); l_pm1(p);
    RING!{ u*(1 - y)*w == (1 + y)*w | y*w == u - 1 with -(u + 1) | w == u + 1 with u - 1 } l_mulcancel(F!{ u*(1 - y) }, F!{ 1 + y }, w);
    if y == f1() { RING!{ 2 == 0 | 1*w == u - 1 with 1 | w == u + 1 with -1 } }
    l_divunique(u, F!{ 1 + y }, F!{ 1 - y }); l_divunique(v, u, x); } }
/// the sum of two points with different y is not the neutral point
pub proof fn l_notinv(p: EdwardsPoint, q: EdwardsPoint) requires oncurve(p), oncurve(q), p.y != q.y ensures eadd(p, q) != ezero()
{ broadcast use fieldax; l_complete(p, q); let d = cd(); let e = ee(p, q); let x1 = p.x; let y1 = p.y; let x2 = q.x; let y2 = q.y; let n = F!{ x1*y2 + y1*x2 }; let m = F!{ y1*y2 + x1*x2 };
  if eadd(p, q) == ezero() {
    assert(fmul(f0(), F!{ 1 + e }) == n); assert(fmul(f1(), F!{ 1 - e }) == m);
    RING!{ (y2 - y1)*(1 - d*x1*x1*y1*y2) == 0 | x1*y2 + y1*x2 == 0 with -x1 - d*x1*y1*y2 | y1*y2 + x1*x2 == 1 - d*x1*x2*y1*y2 with y1 | y1*y1 - x1*x1 == 1 + d*(x1*x1)*(y1*y1) with -y2 }
    RING!{ (y1 - y2)*(1 - d*x2*x2*y1*y2) == 0 | x1*y2 + y1*x2 == 0 with -x2 - d*x2*y1*y2 | y1*y2 + x1*x2 == 1 - d*x1*x2*y1*y2 with y2 | y2*y2 - x2*x2 == 1 + d*(x2*x2)*(y2*y2) with -y1 }
    RING!{ e*e == 1 | 1 - d*x1*x1*y1*y2 == 0 with -1 | 1 - d*x2*x2*y1*y2 == 0 with -(d*x1*x1*y1*y2) | e == d*x1*x2*y1*y2 with e + d*x1*x2*y1*y2 } l_comp2(p, q, e); } }
pub open spec fn mont_l(p: MontgomeryPoint, q: MontgomeryPoint) -> Num { fdiv(fsub(q.y, p.y), fsub(q.x, p.x)) }
pub open spec fn madd(p: MontgomeryPoint, q: MontgomeryPoint) -> MontgomeryPoint { let l = mont_l(p, q); MontgomeryPoint { x: F!{ `cb()`*(l*l) - `ca()` - p.x - q.x }, y: F!{ l*(2*p.x + q.x + `ca()` - `cb()`*(l*l)) - p.y } } }
pub open spec fn mdbl_l(p: MontgomeryPoint) -> Num { fdiv(F!{ 3*(p.x*p.x) + 2*`ca()`*p.x + 1 }, F!{ 2*`cb()`*p.y }) }
pub open spec fn mdbl(p: MontgomeryPoint) -> MontgomeryPoint { let l = mdbl_l(p); MontgomeryPoint { x: F!{ `cb()`*(l*l) - `ca()` - 2*p.x }, y: F!{ l*(3*p.x + `ca()` - `cb()`*(l*l)) - p.y } } }
/// what determines the Montgomery form of a point
pub proof fn l_mfin(p: EdwardsPoint, u: Num, v: Num) requires oncurve(p), p != ezero(), F!{ u*(1 - p.y) } == F!{ 1 + p.y }, fmul(v, p.x) == u, onm(u, v) ensures emap(p) == (MontgomeryPoint { x: u, y: v })
{ hide(fint); broadcast use fieldax; l_pm1(p); l_char2(); ax_mont(); l_fint01(); let x = p.x; let y = p.y; let a = ca(); let b = cb(); let d = cd();
  if x == f0() { RING!{ b*(v*v) == 0 | b*(v*v) == 0*0*0 + a*(0*0) + 0 with 1 } RING!{ 4 == 2*2 } let four = fint(4); if fneg(four) == f0() { l_neg0(); RING!{ -(-four) == four } } if b == f0() { RING!{ 0*(1 + d) == 0 } RING!{ -4 == -four | four == 4 with 1 } } }
  else { l_divunique(u, F!{ 1 + y }, F!{ 1 - y }); l_divunique(v, u, x); } }
pub proof fn l_madd_on(u1: Num, v1: Num, u2: Num, v2: Num, l: Num, a: Num, b: Num) requires F!{ b*(v1*v1) } == F!{ u1*u1*u1 + a*(u1*u1) + u1 }, F!{ b*(v2*v2) } == F!{ u2*u2*u2 + a*(u2*u2) + u2 }, F!{ l*(u2 - u1) } == F!{ v2 - v1 }, u1 != u2
  ensures ({ let u3 = F!{ b*(l*l) - a - u1 - u2 }; let v3 = F!{ l*(2*u1 + u2 + a - b*(l*l)) - v1 }; F!{ b*(v3*v3) } == F!{ u3*u3*u3 + a*(u3*u3) + u3 } })
{ broadcast use fieldax; let u3 = F!{ b*(l*l) - a - u1 - u2 }; let v3 = F!{ l*(2*u1 + u2 + a - b*(l*l)) - v1 }; 
  RING!{ (b*((l*(2*u1 + u2 + a - b*(l*l)) - v1)*(l*(2*u1 + u2 + a - b*(l*l)) - v1)))*(u2 - u1) == ((b*(l*l) - a - u1 - u2)*(b*(l*l) - a - u1 - u2)*(b*(l*l) - a - u1 - u2) + a*((b*(l*l) - a - u1 - u2)*(b*(l*l) - a - u1 - u2)) + (b*(l*l) - a - u1 - u2))*(u2 - u1)
   | b*(v1*v1) == u1*u1*u1 + a*(u1*u1) + u1 with -(b*(l*l) - a - u1 - 2*u2) | b*(v2*v2) == u2*u2*u2 + a*(u2*u2) + u2 with b*(l*l) - a - 2*u1 - u2 | l*(u2 - u1) == v2 - v1 with (b*(l*l) - a - 2*u1 - u2)*b*(v1 + l*(u2 - u1) + v2) }
  l_mulcancel(F!{ b*(v3*v3) }, F!{ u3*u3*u3 + a*(u3*u3) + u3 }, fsub(u2, u1)); }
pub proof fn l_mdbl_on(u: Num, v: Num, l: Num, a: Num, b: Num) requires F!{ b*(v*v) } == F!{ u*u*u + a*(u*u) + u }, F!{ l*(2*b*v) } == F!{ 3*(u*u) + 2*a*u + 1 }
  ensures ({ let u3 = F!{ b*(l*l) - a - 2*u }; let v3 = F!{ l*(3*u + a - b*(l*l)) - v }; F!{ b*(v3*v3) } == F!{ u3*u3*u3 + a*(u3*u3) + u3 } })
{ RING!{ b*((l*(3*u + a - b*(l*l)) - v)*(l*(3*u + a - b*(l*l)) - v)) == (b*(l*l) - a - 2*u)*(b*(l*l) - a - 2*u)*(b*(l*l) - a - 2*u) + a*((b*(l*l) - a - 2*u)*(b*(l*l) - a - 2*u)) + (b*(l*l) - a - 2*u)
   | b*(v*v) == u*u*u + a*(u*u) + u with 1 | l*(2*b*v) == 3*(u*u) + 2*a*u + 1 with b*(l*l) - a - 3*u } }
pub proof fn l_eadd_m1(p: EdwardsPoint) ensures eadd(m1(), p) == (EdwardsPoint { x: fneg(p.x), y: fneg(p.y) }), eadd(p, m1()) == (EdwardsPoint { x: fneg(p.x), y: fneg(p.y) }), oncurve(m1())
{ broadcast use fieldax; let d = cd(); let px = p.x; let py = p.y; l_eadd_comm(p, m1()); RING!{ d * 0 * px * (-1) * py == 0 } RING!{ 0 * py + (-1) * px == -px } RING!{ (-1) * py + 0 * px == -py } RING!{ 1 + 0 == 1 } RING!{ 1 - 0 == 1 } l_div1(fneg(px)); l_div1(fneg(py)); RING!{ (-1)*(-1) - 0*0 == 1 + d*(0*0)*((-1)*(-1)) } }
/// adding (0, 0) on the Montgomery side; l = 1/x either way round
pub proof fn l_madd_m1(p: EdwardsPoint, u: Num, v: Num, l: Num, u3: Num, v3: Num) requires oncurve(p), p.x != f0(), emap(p) == (MontgomeryPoint { x: u, y: v }), fmul(l, u) == v, u3 == F!{ `cb()`*(l*l) - `ca()` - u }, v3 == F!{ -(l*u3) }, onm(u3, v3)
  ensures emap(eadd(m1(), p)) == (MontgomeryPoint { x: u3, y: v3 })
{ broadcast use fieldax; l_pm1(p); l_eadd_m1(p); l_closed(m1(), p); let x = p.x; let y = p.y; let a = ca(); let b = cb(); let d = cd(); if p == ezero() { } l_map(p); assert(fmul(v, x) == u); assert(F!{ u*(1-y) } == F!{ 1 + y });
  RING!{ u3*u*u == u | u3 == b*(l*l) - a - u with u*u | l*u == v with b*(l*u + v) | b*(v*v) == u*u*u + a*(u*u) + u with 1 } l_mulcancel(fmul(u3, u), f1(), u);
  RING!{ l*x*u == 1*u | l*u == v with x | v*x == u with 1 } l_mulcancel(fmul(l, x), f1(), u);
  RING!{ (-(l*u3))*(-x) == u3 | l*x == 1 with u3 }
  RING!{ u3*(1 - (-y))*(1-y) == (1 + (-y))*(1-y) | u3*u == 1 with (1 - y)*(1-y) | u*(1-y) == 1 + y with -(u3*(1-y)) } l_mulcancel(F!{ u3*(1 - (-y)) }, F!{ 1 + (-y) }, F!{ 1 - y });
  if fneg(x) == f0() { l_neg0(); RING!{ -(-x) == x } }
  l_mfin(eadd(m1(), p), u3, v3); }
pub open spec fn cpoly1(x1: Num, y1: Num, x2: Num, y2: Num, d: Num) -> Num { F!{ -(((1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2)*((1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2)*(1-y1)*(1-y2)) - 2*(1-d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2) - (1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*((1+y1)*(1-y2)+(1+y2)*(1-y1)) } }
pub proof fn l_madd_c1(x1: Num, y1: Num, x2: Num, y2: Num, d: Num) requires F!{ y1*y1 - x1*x1 } == F!{ 1 + d*(x1*x1)*(y1*y1) }, F!{ y2*y2 - x2*x2 } == F!{ 1 + d*(x2*x2)*(y2*y2) }
  ensures F!{ `cpoly1(x1, y1, x2, y2, d)`*(1 - d*x1*x2*y1*y2 - (y1*y2 + x1*x2)) } == F!{ (1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2)*(1 - d*x1*x2*y1*y2 + (y1*y2 + x1*x2)) }
{ RING!{ (-(((1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2)*((1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2)*(1-y1)*(1-y2)) - 2*(1-d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2) - (1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*((1+y1)*(1-y2)+(1+y2)*(1-y1)))*(1 - d*x1*x2*y1*y2 - (y1*y2 + x1*x2)) == (1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2)*(1 - d*x1*x2*y1*y2 + (y1*y2 + x1*x2))
  | y1*y1 - x1*x1 == 1 + d*(x1*x1)*(y1*y1) with x2*(3*d*x1*x2^2*y1^2*y2^2 - d*x1*x2^2*y1^2*y2 - 6*d*x1*x2^2*y1*y2^3 + d*x1*x2^2*y1*y2^2 - d*x1*x2^2*y1*y2 + 3*d*x1*x2^2*y2^4 + d*x1*x2^2*y2^3 + 2*d*x1*x2^2*y2^2 - x1*x2^2*y1^2*y2^2 + 3*x1*x2^2*y1^2*y2 + x1*x2^2*y1*y2^3 - 4*x1*x2^2*y1*y2^2 - 3*x1*x2^2*y1 + x1*x2^2*y2^3 + 4*x1*x2^2*y2 + x1*x2^2 - x1*y1^2*y2^4 - x1*y1^2*y2^3 + x1*y1^2*y2^2 + x1*y1^2*y2 + 3*x1*y1*y2^4 + 3*x1*y1*y2^3 - 3*x1*y1*y2^2 - 3*x1*y1*y2 - 3*x1*y2^4 - 3*x1*y2^3 + 3*x1*y2^2 + 3*x1*y2 + x2*y1^2*y2^4 - 3*x2*y1^2*y2^3 + 3*x2*y1^2*y2^2 - x2*y1^2*y2 + x2*y1*y2^4 - 4*x2*y1*y2^3 + 6*x2*y1*y2^2 - 4*x2*y1*y2 + x2*y1 - x2*y2^3 + 3*x2*y2^2 - 3*x2*y2 + x2) | y2*y2 - x2*x2 == 1 + d*(x2*x2)*(y2*y2) with x1*(-d*x1^2*x2*y1*y2^2 - d*x1^2*x2*y1*y2 + x1^2*x2*y1^3*y2 + x1^2*x2*y1^3 - x1^2*x2*y1^2*y2^2 - 4*x1^2*x2*y1^2*y2 - 3*x1^2*x2*y1^2 + 3*x1^2*x2*y1*y2^2 + 6*x1^2*x2*y1*y2 + 3*x1^2*x2*y1 - 3*x1^2*x2*y2^2 - 4*x1^2*x2*y2 - x1^2*x2 + x1*y1^4*y2^2 + x1*y1^4*y2 - 3*x1*y1^3*y2^2 - 4*x1*y1^3*y2 - x1*y1^3 + 3*x1*y1^2*y2^2 + 6*x1*y1^2*y2 + 3*x1*y1^2 - x1*y1*y2^2 - 4*x1*y1*y2 - 3*x1*y1 + x1*y2 + x1 - x2*y1^4*y2^2 + 3*x2*y1^4*y2 - x2*y1^3*y2^2 - 3*x2*y1^3*y2 - 2*x2*y1^3 + 4*x2*y1^2*y2^2 - 2*x2*y1^2*y2 + 2*x2*y1^2 + x2*y1*y2^2 + 3*x2*y1*y2 + 2*x2*y1 - 3*x2*y2^2 - x2*y2 - 2*x2) } }
pub proof fn l_madd_c2(x1: Num, y1: Num, x2: Num, y2: Num, d: Num) requires F!{ y1*y1 - x1*x1 } == F!{ 1 + d*(x1*x1)*(y1*y1) }, F!{ y2*y2 - x2*x2 } == F!{ 1 + d*(x2*x2)*(y2*y2) }
  ensures ({ let e = F!{ d*x1*x2*y1*y2 }; let n = F!{ x1*y2 + y1*x2 }; let m = F!{ y1*y2 + x1*x2 }; let mm = F!{ (1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2 }; let dd = F!{ y2 - y1 }; F!{ mm*(y1*(1-e) - m)*n - (1+y1)*(1-e-m)*n*x2*dd - (1-e+m)*(1-y1)*x1*x2*dd*(1+e) } == f0() })
{ RING!{ ((1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2)*(y1*(1-d*x1*x2*y1*y2) - (y1*y2 + x1*x2))*(x1*y2 + y1*x2) - (1+y1)*(1-d*x1*x2*y1*y2-(y1*y2 + x1*x2))*(x1*y2 + y1*x2)*x2*(y2-y1) - (1-d*x1*x2*y1*y2+(y1*y2 + x1*x2))*(1-y1)*x1*x2*(y2-y1)*(1+d*x1*x2*y1*y2) == 0
  | y1*y1 - x1*x1 == 1 + d*(x1*x1)*(y1*y1) with -(x2*y2*(y1 - 1)*(d*x1*x2^2*y1*y2 - d*x1*x2^2*y2^2 - x1*x2^2 + x1*y2^2 + x1*y2 + x2*y1)) | y2*y2 - x2*x2 == 1 + d*(x2*x2)*(y2*y2) with -(x1*(y1 - 1)*(x1^2*x2*y2 - x1*y1*y2 - x2*y1^2*y2 - x2*y1^2 - x2*y1 + x2*y2)) } }
/// u of the sum, both points other than (0, 0)
pub proof fn l_madd_u(p: EdwardsPoint, q: EdwardsPoint, u1: Num, v1: Num, u2: Num, v2: Num, l: Num, u3: Num)
  requires oncurve(p), oncurve(q), p.x != f0(), q.x != f0(), p.y != q.y, F!{ u1*(1 - p.y) } == F!{ 1 + p.y }, F!{ u2*(1 - q.y) } == F!{ 1 + q.y }, fmul(v1, p.x) == u1, fmul(v2, q.x) == u2, F!{ l*(u2 - u1) } == F!{ v2 - v1 }, u3 == F!{ `cb()`*(l*l) - `ca()` - u1 - u2 }
  ensures F!{ u3*(1 - `eadd(p, q).y`) } == F!{ 1 + `eadd(p, q).y` }, F!{ 2*l*p.x*q.x*(q.y - p.y) } == F!{ (1+q.y)*(1-p.y)*p.x - (1+p.y)*(1-q.y)*q.x }
{ hide(fint); broadcast use fieldax; l_complete(p, q); ax_mont(); l_d1(); l_pm1(p); l_pm1(q); let a = ca(); let b = cb(); let d = cd(); let x1 = p.x; let y1 = p.y; let x2 = q.x; let y2 = q.y; let e = ee(p, q); let m = F!{ y1*y2 + x1*x2 }; let y3 = eadd(p, q).y; assert(fmul(y3, F!{ 1 - e }) == m);
  let mm = F!{ (1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2 };
  RING!{ 2*l*x1*x2*(y2-y1) == (1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2 | l*(u2-u1) == v2-v1 with x1*x2*(1-y1)*(1-y2) | u2*(1-y2) == 1+y2 with x1*(1-y1) - l*x1*x2*(1-y1) | u1*(1-y1) == 1+y1 with l*x1*x2*(1-y2) - x2*(1-y2) | v2*x2 == u2 with x1*(1-y1)*(1-y2) | v1*x1 == u1 with -(x2*(1-y1)*(1-y2)) }
  let w = F!{ (1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2) };
  RING!{ u3*((1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2)) == -(mm*mm*(1-y1)*(1-y2)) - 2*(1-d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2) - (1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*((1+y1)*(1-y2)+(1+y2)*(1-y1))
    | u3 == b*(l*l) - a - u1 - u2 with (1+d)*x1*x1*x2*x2*(y2-y1)*(y2-y1)*(1-y1)*(1-y2) | b*(1+d) == -4 with l*l*x1*x1*x2*x2*(y2-y1)^2*(1-y1)*(1-y2) | 2*l*x1*x2*(y2-y1) == mm with -((1-y1)*(1-y2)*(2*l*x1*x2*(y2-y1) + mm)) | a*(1+d) == 2*(1-d) with -(x1*x1*x2*x2*(y2-y1)^2*(1-y1)*(1-y2)) | u1*(1-y1) == 1+y1 with -((1+d)*x1*x1*x2*x2*(y2-y1)^2*(1-y2)) | u2*(1-y2) == 1+y2 with -((1+d)*x1*x1*x2*x2*(y2-y1)^2*(1-y1)) }
  l_madd_c1(x1, y1, x2, y2, d);
  let g = F!{ 1 - e - m }; let h = F!{ 1 - e + m }; RING!{ u3*g*w == u3*w*g } RING!{ h*w == w*h }
  assert(w != f0()); l_mulcancel(fmul(u3, g), h, w);
  RING!{ u3*(1 - y3)*(1-e) == (1 + y3)*(1-e) | y3*(1-e) == m with -u3 - 1 | u3*(1-e-m) == 1-e+m with 1 } l_mulcancel(F!{ u3*(1 - y3) }, F!{ 1 + y3 }, F!{ 1 - e }); }
pub proof fn l_madd_v(p: EdwardsPoint, q: EdwardsPoint, u1: Num, v1: Num, l: Num, u3: Num, v3: Num)
  requires oncurve(p), oncurve(q), p.x != f0(), q.x != f0(), p.y != q.y, eadd(p, q) != ezero(), F!{ u1*(1 - p.y) } == F!{ 1 + p.y }, fmul(v1, p.x) == u1, F!{ u3*(1 - `eadd(p, q).y`) } == F!{ 1 + `eadd(p, q).y` }, F!{ 2*l*p.x*q.x*(q.y - p.y) } == F!{ (1+q.y)*(1-p.y)*p.x - (1+p.y)*(1-q.y)*q.x }, v3 == F!{ l*(u1 - u3) - v1 }
  ensures fmul(v3, eadd(p, q).x) == u3
{ hide(fint); broadcast use fieldax; l_complete(p, q); l_closed(p, q); l_pm1(p); l_pm1(q); l_pm1(eadd(p, q)); let d = cd(); let x1 = p.x; let y1 = p.y; let x2 = q.x; let y2 = q.y; let e = ee(p, q); let n = F!{ x1*y2 + y1*x2 }; let m = F!{ y1*y2 + x1*x2 }; let y3 = eadd(p, q).y; let x3 = eadd(p, q).x; assert(fmul(y3, F!{ 1 - e }) == m); assert(fmul(x3, F!{ 1 + e }) == n);
  let mm = F!{ (1+y2)*(1-y1)*x1 - (1+y1)*(1-y2)*x2 }; let dd = F!{ y2 - y1 }; let t = F!{ mm*(y1-y3)*x3 - (1+y1)*(1-y3)*x2*dd*x3 - (1+y3)*(1-y1)*x1*x2*dd }; let qq = F!{ (1-y1)*(1-y3)*x1*x2*dd };
  RING!{ (l*(u1 - u3) - v1)*x3*((1-y1)*(1-y3)*x1*x2*dd) == u3*((1-y1)*(1-y3)*x1*x2*dd) + (mm*(y1-y3)*x3 - (1+y1)*(1-y3)*x2*dd*x3 - (1+y3)*(1-y1)*x1*x2*dd)
    | u1*(1-y1) == 1+y1 with l*x1*x2*dd*x3*(1-y3) - (1-y3)*x2*dd*x3 | u3*(1-y3) == 1+y3 with -(l*x1*x2*dd*x3*(1-y1)) - (1-y1)*x1*x2*dd | 2*l*x1*x2*dd == mm with x3*(y1-y3) | v1*x1 == u1 with -((1-y1)*(1-y3)*x2*dd*x3) }
  RING!{ t*((1+e)*(1-e)) == mm*(y1*(1-e) - m)*n - (1+y1)*(1-e-m)*n*x2*dd - (1-e+m)*(1-y1)*x1*x2*dd*(1+e)
    | t == mm*(y1-y3)*x3 - (1+y1)*(1-y3)*x2*dd*x3 - (1+y3)*(1-y1)*x1*x2*dd with (1+e)*(1-e) | x3*(1+e) == n with (mm*(y1-y3) - (1+y1)*(1-y3)*x2*dd)*(1-e) | y3*(1-e) == m with n*((1+y1)*x2*dd - mm) - (1-y1)*x1*x2*dd*(1+e) }
  l_madd_c2(x1, y1, x2, y2, d); assert(t == f0()); assert(qq != f0());
  l_mulcancel(fmul(v3, x3), u3, qq); }
/// Montgomery addition is the group law
pub proof fn l_madd(p: MontgomeryPoint, q: MontgomeryPoint) requires onmont(p), onmont(q), p.x != q.x ensures onmont(madd(p, q)), madd(p, q) == emap(eadd(mmap(p), mmap(q))), eadd(mmap(p), mmap(q)) != ezero()
{ hide(fint); broadcast use fieldax; l_unmap(p); l_unmap(q); let l = mont_l(p, q); let u1 = p.x; let v1 = p.y; let u2 = q.x; let v2 = q.y; let a = ca(); let b = cb(); assert(F!{ l*(u2 - u1) } == F!{ v2 - v1 });
  l_madd_on(u1, v1, u2, v2, l, a, b); let r = madd(p, q); let u3 = r.x; let v3 = r.y; let pe = mmap(p); let qe = mmap(q); l_pm1(pe); l_pm1(qe); l_neg0();
  RING!{ l*(2*u1 + u2 + a - b*(l*l)) - v1 == l*(u1 - (b*(l*l) - a - u1 - u2)) - v1 }
  if u1 == f0() { assert(v1 == f0()) by { RING!{ b*(v1*v1) == 0 | b*(v1*v1) == 0*0*0 + a*(0*0) + 0 with 1 } l_unmap(p); assert(emap(pe) == emap(m1())); }
    assert(pe == m1()); RING!{ b*(l*l) - a - 0 - u2 == b*(l*l) - a - u2 } RING!{ l*(0 - u3) - 0 == -(l*u3) } l_madd_m1(qe, u2, v2, l, u3, v3); l_ydiff(qe); l_notinv(pe, qe); }
  else if u2 == f0() { assert(qe == m1()); assert(v2 == f0()) by { assert(emap(qe) == emap(m1())); } l_eadd_comm(pe, qe);
    RING!{ b*(l*l) - a - u1 - 0 == b*(l*l) - a - u1 } RING!{ l*u1 == v1 | l*(0 - u1) == 0 - v1 with -1 } RING!{ l*(u1 - u3) - v1 == -(l*u3) | l*u1 == v1 with 1 } l_madd_m1(pe, u1, v1, l, u3, v3); l_ydiff(pe); l_notinv(qe, pe); }
  else { if pe.y == qe.y { } l_notinv(pe, qe); l_closed(pe, qe); l_madd_u(pe, qe, u1, v1, u2, v2, l, u3); l_madd_v(pe, qe, u1, v1, l, u3, v3); l_mfin(eadd(pe, qe), u3, v3); } }
/// (names the point, and shows that its y differs from the other's)
pub proof fn l_ydiff(p: EdwardsPoint) requires oncurve(p), p.x != f0() ensures p.y != m1().y { broadcast use fieldax; l_pm1(p); }
pub proof fn l_mdbl_u(p: EdwardsPoint, u: Num, v: Num, l: Num, u3: Num)
  requires oncurve(p), p.x != f0(), F!{ u*(1 - p.y) } == F!{ 1 + p.y }, fmul(v, p.x) == u, F!{ l*(2*`cb()`*v) } == F!{ 3*(u*u) + 2*`ca()`*u + 1 }, u3 == F!{ `cb()`*(l*l) - `ca()` - 2*u }
  ensures F!{ u3*(1 - `eadd(p, p).y`) } == F!{ 1 + `eadd(p, p).y` }, F!{ u3*((1+p.y)*(1-p.y)) } == F!{ 1 + p.x*p.x }, F!{ (-8)*l*(1+p.y)*(1-p.y) } == F!{ (3*(1+p.y)*(1+p.y)*(1+`cd()`) + 4*(1-`cd()`)*(1+p.y)*(1-p.y) + (1+`cd()`)*(1-p.y)*(1-p.y))*p.x }
{ hide(fint); broadcast use fieldax; l_complete(p, p); ax_mont(); l_char2(); l_d1(); l_pm1(p); let a = ca(); let b = cb(); let d = cd(); let x = p.x; let y = p.y; let e = ee(p, p); let m = F!{ y*y + x*x }; let y3 = eadd(p, p).y; assert(fmul(y3, F!{ 1 - e }) == m);
  let k = F!{ 3*(1+y)*(1+y)*(1+d) + 4*(1-d)*(1+y)*(1-y) + (1+d)*(1-y)*(1-y) };
  RING!{ (-8)*l*(1+y)*(1-y) == (3*(1+y)*(1+y)*(1+d) + 4*(1-d)*(1+y)*(1-y) + (1+d)*(1-y)*(1-y))*x | l*(2*b*v) == 3*(u*u) + 2*a*u + 1 with (1-y)^2*(1+d)*x | b*(1+d) == -4 with -(2*l*v*x*(1-y)^2) | v*x == u with 8*l*(1-y)^2 | u*(1-y) == 1+y with 8*l*(1-y) + 3*(1+d)*x*(u*(1-y) + (1+y)) + 4*(1-d)*x*(1-y) | a*(1+d) == 2*(1-d) with 2*u*(1-y)^2*x }
  let w = F!{ 16*(1+d)*((1+y)*(1-y)) };
  RING!{ u3*((1+y)*(1-y))*(16*(1+d)*((1+y)*(1-y))) == -((k*x)*(k*x)) - 32*(1-d)*((1+y)*(1-y))^2 - 32*(1+d)*(1+y)^3*(1-y)
    | u3 == b*(l*l) - a - 2*u with 16*(1+d)*((1+y)*(1-y))^2 | b*(1+d) == -4 with 16*((1+y)*(1-y))^2*l*l | a*(1+d) == 2*(1-d) with -(16*((1+y)*(1-y))^2) | u*(1-y) == 1+y with -(32*(1+d)*(1+y)^2*(1-y)) | (-8)*l*(1+y)*(1-y) == k*x with -((-8)*l*(1+y)*(1-y) + k*x) }
  RING!{ -(((3*(1+y)*(1+y)*(1+d) + 4*(1-d)*(1+y)*(1-y) + (1+d)*(1-y)*(1-y))*x)*((3*(1+y)*(1+y)*(1+d) + 4*(1-d)*(1+y)*(1-y) + (1+d)*(1-y)*(1-y))*x)) - 32*(1-d)*((1+y)*(1-y))^2 - 32*(1+d)*(1+y)^3*(1-y) == (1 + x*x)*(16*(1+d)*((1+y)*(1-y))) | y*y - x*x == 1 + d*(x*x)*(y*y) with 16*(4*d*y^2 + 4*d*y + d + 4*y + 5) }
  RING!{ 16 == 2*2*2*2 } assert(w != f0()); l_mulcancel(F!{ u3*((1+y)*(1-y)) }, F!{ 1 + x*x }, w);
  RING!{ u3*(1 - y3)*(1-e) == (1 + y3)*(1-e) | y3*(1-e) == m with -u3 - 1 | m == y*y + x*x with -u3 - 1 | u3*((1+y)*(1-y)) == 1 + x*x with 2 | y*y - x*x == 1 + d*(x*x)*(y*y) with u3 - 1 | e == d*x*x*y*y with 1 - u3 }
  l_mulcancel(F!{ u3*(1 - y3) }, F!{ 1 + y3 }, F!{ 1 - e }); }
pub proof fn l_mdbl(p: MontgomeryPoint) requires onmont(p), p.x != f0() ensures onmont(mdbl(p)), mdbl(p) == emap(eadd(mmap(p), mmap(p))), eadd(mmap(p), mmap(p)) != ezero(), F!{ 2*`cb()`*p.y } != f0()
{ hide(fint); broadcast use fieldax; l_unmap(p); l_char2(); ax_mont(); l_fint01(); let l = mdbl_l(p); let u = p.x; let v = p.y; let a = ca(); let b = cb(); let d = cd(); let pe = mmap(p); l_pm1(pe); l_complete(pe, pe); l_closed(pe, pe);
  RING!{ 4 == 2*2 } let four = fint(4); if fneg(four) == f0() { l_neg0(); RING!{ -(-four) == four } } if b == f0() { RING!{ 0*(1 + d) == 0 } RING!{ -4 == -four | four == 4 with 1 } }
  assert(F!{ 2*b*v } != f0()); assert(F!{ l*(2*b*v) } == F!{ 3*(u*u) + 2*a*u + 1 });
  l_mdbl_on(u, v, l, a, b); let r = mdbl(p); let u3 = r.x; let v3 = r.y; l_mdbl_u(pe, u, v, l, u3);
  let x = pe.x; let y = pe.y; let e = ee(pe, pe); let x3 = eadd(pe, pe).x; let y3 = eadd(pe, pe).y; assert(fmul(x3, F!{ 1 + e }) == F!{ x*y + y*x }); assert(fmul(y3, F!{ 1 - e }) == F!{ y*y + x*x });
  if eadd(pe, pe) == ezero() { RING!{ 2*(x*y) == 0 | 0*(1+e) == x*y + y*x with -1 } assert(y == f0()); RING!{ 1 - d*x*x*0*0 == 1 } RING!{ x*x == 1 | 1*1 == 0*0 + x*x with -1 } RING!{ 2 == 0 | 0*0 - x*x == 1 + d*(x*x)*(0*0) with -1 | x*x == 1 with -1 } }
  let k = F!{ 3*(1+y)*(1+y)*(1+d) + 4*(1-d)*(1+y)*(1-y) + (1+d)*(1-y)*(1-y) };
  RING!{ l*(3*u + a - b*(l*l)) - v == l*(u - (b*(l*l) - a - 2*u)) - v } assert(v3 == F!{ l*(u - u3) - v });
  let qq = F!{ 8*x*((1+y)*(1-y))*((1+y)*(1-y)) }; let t = F!{ x3*(-(k*x*x*((1+y)*(1+y) - 1 - x*x)) - 8*((1+y)*(1-y))*(1+y)*(1+y)) - 8*x*((1+y)*(1-y))*(1+x*x) };
  RING!{ v3*x3*(8*x*((1+y)*(1-y))*((1+y)*(1-y))) == u3*(8*x*((1+y)*(1-y))*((1+y)*(1-y))) + t
    | v3 == l*(u - u3) - v with x3*(8*x*((1+y)*(1-y))*((1+y)*(1-y))) | t == x3*(-(k*x*x*((1+y)*(1+y) - 1 - x*x)) - 8*((1+y)*(1-y))*(1+y)*(1+y)) - 8*x*((1+y)*(1-y))*(1+x*x) with -1
    | (-8)*l*(1+y)*(1-y) == k*x with -(x*x3*((1+y)*(1+y) - 1 - x*x)) | u*(1-y) == 1+y with 8*l*x*x3*((1+y)*(1-y))*(1+y) - 8*x3*((1+y)*(1-y))*(1+y) | u3*((1+y)*(1-y)) == 1 + x*x with -(8*l*x*x3*((1+y)*(1-y))) - 8*x*((1+y)*(1-y)) | v*x == u with -(8*x3*((1+y)*(1-y))^2) }
  RING!{ t*(1+e) == 0 | t == x3*(-(k*x*x*((1+y)*(1+y) - 1 - x*x)) - 8*((1+y)*(1-y))*(1+y)*(1+y)) - 8*x*((1+y)*(1-y))*(1+x*x) with 1 + e | x3*(1+e) == x*y + y*x with -(k*x*x*((1+y)*(1+y) - 1 - x*x)) - 8*((1+y)*(1-y))*(1+y)*(1+y) | k == 3*(1+y)*(1+y)*(1+d) + 4*(1-d)*(1+y)*(1-y) + (1+d)*(1-y)*(1-y) with -(2*x*y*x*x*((1+y)*(1+y) - 1 - x*x)) | e == d*x*x*y*y with -(8*x*((1+y)*(1-y))*(1+x*x)) | y*y - x*x == 1 + d*(x*x)*(y*y) with 8*x*((1+y)*(1-y))*(1+x*x) - 8*x*(2*y + 1)*(x^2 - y^2 - 2*y) }
  RING!{ 8 == 2*2*2 } assert(qq != f0()); l_mulcancel(fmul(v3, x3), u3, qq); l_mfin(eadd(pe, pe), u3, v3); }
## native::ecc|PartialEq|EdwardsPoint|eq
## native::ecc|PartialEq|MontgomeryPoint|eq
## native::ecc|PartialEq|EdwardsPointEx|eq
ens: exwf(*self) && exwf(*other) ==> r == (aff(*self) == aff(*other))
begin: if exwf(*self) && exwf(*other) { l_exeq(self.x, self.z, other.x, other.z); l_exeq(self.y, self.z, other.y, other.z); }
## native::ecc||EdwardsPoint|zero
ens: r == ezero()
## native::ecc||EdwardsPoint|is_zero
ens: r == (*self == ezero())
## native::ecc||EdwardsPoint|is_in_curve
ens: r == oncurve(*self)
## native::ecc||EdwardsPoint|into_extended
ens: exwf(r), aff(r) == *self, r.z == f1()
tail: l_div1(self.x); l_div1(self.y);
## native::ecc||EdwardsPoint|add
req: oncurve(*self), oncurve(*other)
ens: r == eadd(*self, *other), oncurve(r)
begin: l_closed(*self, *other);
## native::ecc||EdwardsPoint|double
req: oncurve(*self)
ens: r == eadd(*self, *self), oncurve(r)
begin: l_closed(*self, *self);
## native::ecc||EdwardsPoint|mul_by_cofactor
req: oncurve(*self)
ens: r == e8(*self), oncurve(r)
## native::ecc||EdwardsPoint|into_montgomery
req: oncurve(*self)
ens: r.is_some() == (*self != ezero()), r.is_some() ==> r.unwrap() == emap(*self) && onmont(r.unwrap()) && mmap(r.unwrap()) == *self
begin: l_pm1(*self); if *self != ezero() { l_map(*self); }
## native::ecc||MontgomeryPoint|into_affine
req: onmont(*self)
ens: r == mmap(*self), oncurve(r)
begin: l_unmap(*self);
## native::ecc||MontgomeryPoint|into_extended
req: onmont(*self)
ens: exwf(r), aff(r) == mmap(*self), oncurve(aff(r))
## native::ecc||EdwardsPointEx|is_in_curve
ens: r == (exwf(*self) && oncurve(aff(*self)))
begin: if exwf(*self) { l_exon(*self); }
## native::ecc||EdwardsPointEx|is_zero
req: exwf(*self)
ens: r == (aff(*self) == ezero())
begin: l_exz(*self);
## native::ecc||EdwardsPointEx|zero
ens: exwf(r), aff(r) == ezero()
tail: l_div1(f0()); l_div1(f1());
## native::ecc||EdwardsPointEx|negate
req: exwf(*self)
ens: exwf(r), aff(r) == eneg(aff(*self))
begin: l_neg_mul(self.t, self.z); l_neg_mul(self.x, self.y); l_neg_mul(self.x, finv(self.z));
## native::ecc||EdwardsPointEx|into_affine
req: honest() ==> self.z != f0()
ens: r == aff(*self), self.z != f0()
## native::ecc||EdwardsPointEx|into_montgomery
req: exwf(*self), oncurve(aff(*self))
ens: r.is_some() == (aff(*self) != ezero()), r.is_some() ==> r.unwrap() == emap(aff(*self)) && onmont(r.unwrap()) && mmap(r.unwrap()) == aff(*self)
## native::ecc||EdwardsPointEx|add
ens: exok(*self) && exok(*other) ==> exok(r) && aff(r) == eadd(aff(*self), aff(*other))
tail: if exok(*self) && exok(*other) { l_exadd(*self, *other, $r); l_closed(aff(*self), aff(*other)); }
## native::ecc||EdwardsPointEx|double
ens: exok(*self) ==> exok(r) && aff(r) == eadd(aff(*self), aff(*self))
tail: if exok(*self) { l_exdbl(*self, $r); l_closed(aff(*self), aff(*self)); }
## native::ecc||EdwardsPointEx|mul_by_cofactor
ens: exok(*self) ==> exok(r) && aff(r) == e8(aff(*self))
