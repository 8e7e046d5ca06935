@area num
@include circuit
@novacuity ll_lookup
## core::signal||Signal|linearize
req: self.wf(), self.swf()
ens: evl(r@) == self.evs(), wfl(r@)
## core::signal||Signal|derive_const
req: T::vok(*value), Self::csok(), self.swf()
ens: r.wf(), r.swf(), r.evs() == T::vnums(*value)
## core::signal||Signal|derive_alloc
req: honest() ==> value.is_some(), value.is_some() ==> T::vok(*value.unwrap()), Self::csok(), self.swf()
ens: r.wf(), r.swf(), honest() ==> r.evs() == T::vnums(*value.unwrap())
## circuit::num|Signal|CNum|get_value
## circuit::num|Signal|CNum|switch
## circuit::num|Signal|CNum|inputize
## circuit::num|Signal|CNum|linearize_builder
## circuit::num|Signal|CNum|get_cs
## circuit::num|Signal|CNum|as_const
## circuit::num|Signal|CNum|from_const
## circuit::num|Signal|CNum|alloc
## circuit::num|Signal|CNum|assert_const
## circuit::num|Signal|CNum|assert_eq
## circuit::num|Signal|CNum|is_eq
## circuit::num||CNum|capacity
ens: true
## circuit::num||CNum|from_var
req: honest() ==> value == Some(sig(var))
ens: r.wf(), r.ev() == sig(var)
## circuit::num||CNum|derive_var
req: honest() ==> value == Some(sig(var))
ens: r.wf(), r.ev() == sig(var)
## circuit::num||CNum|zero ;; circuit::num||CNum|derive_zero
ens: r.wf(), r.ev() == f0()
## circuit::num||CNum|one ;; circuit::num||CNum|derive_one
ens: r.wf(), r.ev() == f1()
## circuit::num||CNum|square
req: self.wf()
ens: r.wf(), r.ev() == fmul(self.ev(), self.ev())
## circuit::num||CNum|assert_zero
req: self.wf(), honest() ==> self.ev() == f0()
ens: self.ev() == f0()
## circuit::num||CNum|assert_nonzero
req: self.wf(), honest() ==> self.ev() != f0()
ens: self.ev() != f0()
## circuit::num||CNum|into_bool
req: self.wf(), honest() ==> isbit(self.ev())
ens: r.wf(), r.ev() == self.ev()
## circuit::num||CNum|assert_bit
req: self.wf(), honest() ==> isbit(self.ev())
ens: isbit(self.ev())
## circuit::num||CNum|is_zero
req: self.wf()
ens: r.wf(), r.ev() == fb(self.ev() == f0())
## circuit::num|Neg|CNum|neg
req: self.wf()
ens: r.wf(), r.ev() == fneg(self.ev())
loops: iter
inv0: invariant self_.lc@.len() == self.lc@.len(), __n0 == self.lc@.len(), __i0 <= __n0, honest() ==> self_.value == Some(fneg(self.ev())),
  forall|j: int| 0 <= j < __i0 ==> (#[trigger] self_.lc@[j]).0 == self.lc@[j].0 && self_.lc@[j].1 == fneg(self.lc@[j].1),
  forall|j: int| __i0 <= j < __n0 ==> (#[trigger] self_.lc@[j]) == self.lc@[j] decreases __n0 - __i0
post0: proof { l_negate(self.lc@, self_.lc@); }
## circuit::num|Neg|&CNum|neg
req: self.wf()
ens: r.wf(), r.ev() == fneg(self.ev())
## circuit::num|||ll_lookup
req: old(cur).pos <= (*old(cur).l)@.len()
ens: *final(final(cur).l) == *final(old(cur).l), (*final(cur).l)@ == (*old(cur).l)@, final(cur).pos <= (*final(cur).l)@.len(),
 r == LookupAction::Add ==> final(cur).pos < (*final(cur).l)@.len() && (*final(cur).l)@[final(cur).pos as int].0 == n
loops: loop
inv0: invariant *final((*cur).l) == *final(old(cur).l), (*cur.l)@ == (*old(cur).l)@, cur.pos <= (*cur.l)@.len() decreases (*cur.l)@.len() - cur.pos
## circuit::num|AddAssign<&CNum>|CNum|add_assign
loops: iter
pre0: let ghost fl = *final(cur_a_ll.l); let ghost a0 = (*cur_a_ll.l)@; proof { l_take_all(other.lc@); l_neg0(); }
inv0: invariant a0 == old(self).lc@, *final(cur_a_ll.l) == fl, cur_a_ll.pos <= (*cur_a_ll.l)@.len(), __n0 == other.lc@.len(), __i0 <= __n0, __s1 == &other.lc,
  lcev((*cur_a_ll.l)@) == fadd(lcev(a0), lcev(other.lc@.take(__i0 as int))) decreases __n0 - __i0
ent0: let ghost s0 = (*cur_a_ll.l)@;
end0: proof { l_merge(s0, (*cur_a_ll.l)@, cur_a_ll.pos as int, *k, *v); l_take(other.lc@, __i0 as int); let x = lcev(other.lc@.take(__i0 as int)); let y = fmul(*v, sig(*k));
   ax_addassoc(lcev(a0), x, y); }
post0: proof { l_take_all(other.lc@); }
## circuit::num|SubAssign<&CNum>|CNum|sub_assign
loops: iter
pre0: let ghost fl = *final(cur_a_ll.l); let ghost a0 = (*cur_a_ll.l)@; proof { l_take_all(other.lc@); l_neg0(); }
inv0: invariant a0 == old(self).lc@, *final(cur_a_ll.l) == fl, cur_a_ll.pos <= (*cur_a_ll.l)@.len(), __n0 == other.lc@.len(), __i0 <= __n0, __s1 == &other.lc,
  lcev((*cur_a_ll.l)@) == fsub(lcev(a0), lcev(other.lc@.take(__i0 as int))) decreases __n0 - __i0
ent0: let ghost s0 = (*cur_a_ll.l)@;
end0: proof { l_merge(s0, (*cur_a_ll.l)@, cur_a_ll.pos as int, *k, fneg(*v)); l_take(other.lc@, __i0 as int); let x = lcev(other.lc@.take(__i0 as int)); let y = fmul(*v, sig(*k));
   l_neg_add(x, y); l_neg_mul(*v, sig(*k)); ax_addassoc(lcev(a0), fneg(x), fneg(y)); }
post0: proof { l_take_all(other.lc@); }
## circuit::num|MulAssign<&Num>|CNum|mul_assign
loops: iter
inv0: invariant honest() ==> *other != f0(), self.lc@.len() == old(self).lc@.len(), __n0 == old(self).lc@.len(), __i0 <= __n0, honest() ==> self.value == Some(fmul(old(self).ev(), *other)),
  forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.lc@[j]).0 == old(self).lc@[j].0 && self.lc@[j].1 == fmul(old(self).lc@[j].1, *other),
  forall|j: int| __i0 <= j < __n0 ==> (#[trigger] self.lc@[j]) == old(self).lc@[j] decreases __n0 - __i0
post0: proof { l_scale(old(self).lc@, self.lc@, *other); }
## circuit::num|DivAssign<&Num>|CNum|div_assign
loops: iter
inv0: invariant honest() ==> *other != f0(), self.lc@.len() == old(self).lc@.len(), __n0 == old(self).lc@.len(), __i0 <= __n0, honest() ==> self.value == Some(fmul(old(self).ev(), finv(*other))),
  forall|j: int| 0 <= j < __i0 ==> (#[trigger] self.lc@[j]).0 == old(self).lc@[j].0 && self.lc@[j].1 == fmul(old(self).lc@[j].1, finv(*other)),
  forall|j: int| __i0 <= j < __n0 ==> (#[trigger] self.lc@[j]) == old(self).lc@[j] decreases __n0 - __i0
post0: proof { l_scale(old(self).lc@, self.lc@, finv(*other)); }
## circuit::bool|Signal|CBool|get_cs
## circuit::bool|Signal|CBool|inputize
## circuit::bool|Signal|CBool|linearize_builder
## circuit::bool|Signal|CBool|from_const
## circuit::bool|Signal|CBool|get_value
## circuit::bool|Signal|CBool|as_const
## circuit::bool|Signal|CBool|alloc
## circuit::bool|Signal|CBool|switch
## circuit::bool|Signal|CBool|assert_const
## circuit::bool|Signal|CBool|assert_eq
## circuit::bool|Signal|CBool|is_eq
## circuit::bool||CBool|if_else
req: self.wf(), if_true.wf(), if_true.swf(), if_false.wf(), if_false.swf()
ens: r.wf(), r.swf(), self.ev() == f1() ==> r.evs() == if_true.evs(), self.ev() == f0() ==> r.evs() == if_false.evs()
## circuit::bool||CBool|into_num
req: self.wf()
ens: r.wf(), r.ev() == self.ev()
## circuit::bool||CBool|assert
req: self.wf()
ens: isbit(self.ev())
## circuit::bool||CBool|assert_false
req: self.wf(), honest() ==> self.ev() == f0()
ens: self.ev() == f0()
## circuit::bool||CBool|assert_true
req: self.wf(), honest() ==> self.ev() == f1()
ens: self.ev() == f1()
## circuit::bool||CBool|c_true
ens: r.wf(), r.ev() == f1()
## circuit::bool||CBool|c_false
ens: r.wf(), r.ev() == f0()
