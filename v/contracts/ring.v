@area ring
@include field
%% raw
/// polynomial identities by reflection: an expression is normalised to a sorted sum of monomials (proved to keep its value), and the normal form is computed
pub enum Ex { V(nat, int), K(int), A(Box<Ex>, Box<Ex>), M(Box<Ex>, Box<Ex>), N(Box<Ex>) }
pub enum ML { E, C(nat, Box<ML>) }
/// terms carry a sort key (the sum of the keys of their variables), which has no meaning for the value
pub enum PL { E, C(int, ML, int, Box<PL>) }
pub open spec fn fint(c: int) -> Num decreases (if c < 0 { 1 - c } else { c }) { if c == 0 { f0() } else if c > 0 { fadd(fint(c - 1), f1()) } else { fneg(fint(-c)) } }
pub open spec fn rev(e: Ex, env: Seq<Num>) -> Num decreases e { match e { Ex::V(i, k) => env[i as int], Ex::K(c) => fint(c), Ex::A(a, b) => fadd(rev(*a, env), rev(*b, env)), Ex::M(a, b) => fmul(rev(*a, env), rev(*b, env)), Ex::N(a) => fneg(rev(*a, env)) } }
pub open spec fn mev(m: ML, env: Seq<Num>) -> Num decreases m { match m { ML::E => f1(), ML::C(i, r) => fmul(env[i as int], mev(*r, env)) } }
pub open spec fn pev(p: PL, env: Seq<Num>) -> Num decreases p { match p { PL::E => f0(), PL::C(k, m, c, r) => fadd(fmul(fint(c), mev(m, env)), pev(*r, env)) } }
pub open spec fn mcmp(a: ML, b: ML) -> int decreases a { match a { ML::E => match b { ML::E => 0, _ => -1 }, ML::C(i, r) => match b { ML::E => 1, ML::C(j, s) => if i < j { -1 } else if i > j { 1 } else { mcmp(*r, *s) } } } }
pub open spec fn mmul(a: ML, b: ML) -> ML decreases a, b { match a { ML::E => b, ML::C(i, r) => match b { ML::E => a, ML::C(j, s) => if i <= j { ML::C(i, Box::new(mmul(*r, b))) } else { ML::C(j, Box::new(mmul(a, *s))) } } } }
pub open spec fn padd(p: PL, q: PL) -> PL decreases p, q { match p { PL::E => q, PL::C(k, m, c, r) => match q { PL::E => p, PL::C(k2, m2, c2, r2) =>
   if k < k2 { PL::C(k, m, c, Box::new(padd(*r, q))) } else if k > k2 { PL::C(k2, m2, c2, Box::new(padd(p, *r2))) } else if mcmp(m, m2) == 0 { if c + c2 == 0 { padd(*r, *r2) } else { PL::C(k, m, c + c2, Box::new(padd(*r, *r2))) } } else { PL::C(k, m, c, Box::new(padd(*r, q))) } } } }
pub open spec fn pmt(p: PL, k: int, m: ML, c: int) -> PL decreases p { match p { PL::E => PL::E, PL::C(k2, m2, c2, r) => PL::C(k + k2, mmul(m, m2), c * c2, Box::new(pmt(*r, k, m, c))) } }
pub open spec fn pmul(p: PL, q: PL) -> PL decreases q { match q { PL::E => PL::E, PL::C(k, m, c, r) => padd(pmt(p, k, m, c), pmul(p, *r)) } }
pub open spec fn norm(e: Ex) -> PL decreases e { match e { Ex::V(i, k) => PL::C(k, ML::C(i, Box::new(ML::E)), 1, Box::new(PL::E)), Ex::K(c) => if c == 0 { PL::E } else { PL::C(0, ML::E, c, Box::new(PL::E)) },
  Ex::A(a, b) => padd(norm(*a), norm(*b)), Ex::M(a, b) => pmul(norm(*a), norm(*b)), Ex::N(a) => pmt(norm(*a), 0, ML::E, -1) } }
pub proof fn l_fint_succ(a: int) ensures fint(a + 1) == fadd(fint(a), f1()) { broadcast use fieldax; l_neg0(); reveal_with_fuel(fint, 3);
  if a < 0 { let n = -a; // fint(a) = -fint(n), fint(n) = fint(n-1)+1
    l_neg_add(fint(n - 1), f1()); ax_addassoc(fneg(fint(n - 1)), fneg(f1()), f1()); if n == 1 { } } }
pub proof fn l_fint_add_n(a: int, n: nat) ensures fint(a + n) == fadd(fint(a), fint(n as int)) decreases n { broadcast use fieldax; if n > 0 { l_fint_add_n(a, (n - 1) as nat); l_fint_succ(a + n - 1); ax_addassoc(fint(a), fint(n - 1), f1()); } }
pub proof fn l_fint_neg(a: int) ensures fint(-a) == fneg(fint(a)) { broadcast use fieldax; l_neg0(); }
pub proof fn l_fint_add(a: int, b: int) ensures fint(a + b) == fadd(fint(a), fint(b)) { broadcast use fieldax; if b >= 0 { l_fint_add_n(a, b as nat); } else { l_fint_add_n(-a, (-b) as nat); l_fint_neg(-a - b); l_fint_neg(a); l_fint_neg(b); l_neg_add(fneg(fint(a)), fneg(fint(b))); assert(-(-a - b) == a + b); } }
pub proof fn l_fint_mul_n(a: int, n: nat) ensures fint(a * n) == fmul(fint(a), fint(n as int)) decreases n { broadcast use fieldax; if n > 0 { l_fint_mul_n(a, (n - 1) as nat); assert(a * n == a * (n - 1) + a) by (nonlinear_arith); l_fint_add(a * (n - 1), a); ax_dist(fint(a), fint(n - 1), f1()); } else { assert(a * n == 0) by (nonlinear_arith) requires n == 0; } }
pub proof fn l_fint_mul(a: int, b: int) ensures fint(a * b) == fmul(fint(a), fint(b)) { broadcast use fieldax; if b >= 0 { l_fint_mul_n(a, b as nat); } else { l_fint_mul_n(a, (-b) as nat); assert(a * b == -(a * -b)) by (nonlinear_arith); l_fint_neg(a * -b); l_fint_neg(b); l_neg_mul(fint(b), fint(a)); } }
pub proof fn l_mcmp(a: ML, b: ML) requires mcmp(a, b) == 0 ensures a == b decreases a { match a { ML::E => {}, ML::C(i, r) => match b { ML::E => {}, ML::C(j, s) => { l_mcmp(*r, *s); } } } }
pub proof fn l_mmul(a: ML, b: ML, env: Seq<Num>) ensures mev(mmul(a, b), env) == fmul(mev(a, env), mev(b, env)) decreases a, b { broadcast use fieldax;
  match a { ML::E => {}, ML::C(i, r) => match b { ML::E => {}, ML::C(j, s) => if i <= j { l_mmul(*r, b, env); ax_mulassoc(env[i as int], mev(*r, env), mev(b, env)); } else { l_mmul(a, *s, env); let x = env[j as int]; let y = mev(*s, env); ax_mulassoc(x, y, mev(a, env)); } } } }
pub proof fn l_padd(p: PL, q: PL, env: Seq<Num>) ensures pev(padd(p, q), env) == fadd(pev(p, env), pev(q, env)) decreases p, q { broadcast use fieldax;
  match p { PL::E => {}, PL::C(k, m, c, r) => match q { PL::E => {}, PL::C(k2, m2, c2, r2) => { let t = fmul(fint(c), mev(m, env)); let u = fmul(fint(c2), mev(m2, env)); let x = pev(*r, env); let y = pev(*r2, env);
   if k > k2 { l_padd(p, *r2, env); ax_addassoc(u, pev(p, env), y); ax_addassoc(pev(p, env), u, y); }
   else if k == k2 && mcmp(m, m2) == 0 { l_padd(*r, *r2, env); l_mcmp(m, m2); l_fint_add(c, c2); l_add_mul(fint(c), fint(c2), mev(m, env)); l_add4(t, x, u, y); reveal_with_fuel(fint, 2); }
   else { l_padd(*r, q, env); ax_addassoc(t, x, pev(q, env)); } } } } }
pub proof fn l_mul4(a: Num, b: Num, c: Num, d: Num) ensures fmul(fmul(a, b), fmul(c, d)) == fmul(fmul(a, c), fmul(b, d))
{ ax_mulassoc(a, b, fmul(c, d)); ax_mulassoc(b, c, d); ax_mulassoc(c, b, d); ax_mulcomm(b, c); ax_mulassoc(a, c, fmul(b, d)); }
pub proof fn l_pmt(p: PL, k: int, m: ML, c: int, env: Seq<Num>) ensures pev(pmt(p, k, m, c), env) == fmul(fmul(fint(c), mev(m, env)), pev(p, env)) decreases p { broadcast use fieldax;
  match p { PL::E => {}, PL::C(k2, m2, c2, r) => { let t = fmul(fint(c), mev(m, env)); let u = fmul(fint(c2), mev(m2, env)); let w = pev(*r, env);
    l_pmt(*r, k, m, c, env); l_mmul(m, m2, env); l_fint_mul(c, c2); l_mul4(fint(c), mev(m, env), fint(c2), mev(m2, env)); ax_dist(t, u, w); } } }
pub proof fn l_pmul(p: PL, q: PL, env: Seq<Num>) ensures pev(pmul(p, q), env) == fmul(pev(p, env), pev(q, env)) decreases q { broadcast use fieldax;
  match q { PL::E => {}, PL::C(k, m, c, r) => { let t = fmul(fint(c), mev(m, env)); let w = pev(*r, env); let x = pev(p, env); l_pmul(p, *r, env); l_pmt(p, k, m, c, env); l_padd(pmt(p, k, m, c), pmul(p, *r), env); ax_dist(x, t, w); } } }
pub proof fn l_norm(e: Ex, env: Seq<Num>) ensures pev(norm(e), env) == rev(e, env) decreases e { broadcast use fieldax; l_neg0();
  match e { Ex::V(i, k) => { reveal_with_fuel(fint, 3); reveal_with_fuel(pev, 3); reveal_with_fuel(mev, 3); }, Ex::K(c) => { reveal_with_fuel(pev, 3); reveal_with_fuel(mev, 3); }, Ex::A(a, b) => { l_norm(*a, env); l_norm(*b, env); l_padd(norm(*a), norm(*b), env); }, Ex::M(a, b) => { l_norm(*a, env); l_norm(*b, env); l_pmul(norm(*a), norm(*b), env); },
    Ex::N(a) => { l_norm(*a, env); l_pmt(norm(*a), 0, ML::E, -1, env); reveal_with_fuel(fint, 3); l_neg_mul(f1(), rev(*a, env)); } } }
/// the tactic: equal normal forms, equal values
pub proof fn l_ring(a: Ex, b: Ex, env: Seq<Num>) requires norm(Ex::A(Box::new(a), Box::new(Ex::N(Box::new(b))))) == PL::E ensures rev(a, env) == rev(b, env)
{ broadcast use fieldax; l_norm(Ex::A(Box::new(a), Box::new(Ex::N(Box::new(b)))), env); reveal_with_fuel(rev, 3); reveal_with_fuel(pev, 2); l_subeq(rev(a, env), rev(b, env)); }
pub proof fn l_fint01() ensures fint(0) == f0(), fint(1) == f1() { broadcast use fieldax; reveal_with_fuel(fint, 3); }
proof fn rtest(a: Num, b: Num, c: Num) { RING!{ (a + b)^2 - 2*a*b == a*a + b^2 } }
proof fn rtest2(a: Num, b: Num, c: Num) requires F!{a*b} == f1() ensures F!{a*c*b} == c { RING!{ a*c*b == c | a*b == 1 with c } }
