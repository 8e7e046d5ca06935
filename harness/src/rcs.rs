//! Recording constraint system: the real code under test emits its R1CS into it.
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field};
use fawkes_crypto::native::num::Num;
use std::cell::RefCell;
use std::collections::HashMap;

pub type Lc<F> = Vec<(usize, F)>;
#[derive(Clone, PartialEq, Debug)]
pub struct Con<F>(pub Lc<F>, pub Lc<F>, pub Lc<F>);

/// wire 0 is the constant one
pub struct Rec<F: Field> {
    pub wires: RefCell<Vec<(Index, Option<F>)>>,
    pub map: RefCell<HashMap<Index, usize>>,
    pub cons: RefCell<Vec<Con<F>>>,
    pub nin: RefCell<usize>,
    pub naux: RefCell<usize>,
    pub log: RefCell<Vec<(bool, usize)>>,
}
impl<F: Field> Clone for Rec<F> {
    fn clone(&self) -> Self {
        panic!("Rec must not be cloned")
    }
}
impl<F: Field> std::fmt::Debug for Rec<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Rec")
    }
}
impl<F: Field> Rec<F> {
    pub fn new() -> Self {
        let mut m = HashMap::new();
        m.insert(Index::Input(0), 0);
        Rec {
            wires: RefCell::new(vec![(Index::Input(0), Some(F::one()))]),
            map: RefCell::new(m),
            cons: RefCell::new(vec![]),
            nin: RefCell::new(1),
            naux: RefCell::new(0),
            log: RefCell::new(vec![]),
        }
    }
    fn new_wire(&self, ix: Index, v: Option<Num<F>>) -> Index {
        let mut w = self.wires.borrow_mut();
        self.map.borrow_mut().insert(ix, w.len());
        w.push((ix, v.map(|x| x.0)));
        ix
    }
    pub fn lc(&self, n: &CNum<Self>) -> Lc<F> {
        let m = self.map.borrow();
        n.lc.iter().map(|(k, v)| (*m.get(k).expect("unknown variable in a linear combination"), v.0)).collect()
    }
    pub fn values(&self) -> Vec<Option<F>> {
        self.wires.borrow().iter().map(|w| w.1).collect()
    }
    pub fn nwires(&self) -> usize {
        self.wires.borrow().len()
    }
}
impl<F: Field> ConstraintSystem for Rec<F> {
    type F = F;
    fn alloc(&self, v: Option<Num<F>>) -> Index {
        let n = *self.naux.borrow();
        *self.naux.borrow_mut() += 1;
        self.log.borrow_mut().push((false, n));
        self.new_wire(Index::Aux(n), v)
    }
    fn alloc_input(&self, v: Option<Num<F>>) -> Index {
        let n = *self.nin.borrow();
        *self.nin.borrow_mut() += 1;
        self.log.borrow_mut().push((true, n));
        self.new_wire(Index::Input(n), v)
    }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) {
        let k = Con(self.lc(a), self.lc(b), self.lc(c));
        self.cons.borrow_mut().push(k);
    }
}
pub fn eval<F: Field>(lc: &Lc<F>, v: &[F]) -> F {
    let mut r = F::zero();
    for (w, c) in lc {
        let mut t = v[*w];
        t.mul_assign(c);
        r.add_assign(&t);
    }
    r
}
/// semantic normal form of a linear combination (merged, zero-free, sorted)
pub fn norm<F: Field>(lc: &Lc<F>) -> Vec<(usize, F)> {
    let mut m: std::collections::BTreeMap<usize, F> = Default::default();
    for (w, c) in lc {
        m.entry(*w).or_insert(F::zero()).add_assign(c);
    }
    m.into_iter().filter(|(_, c)| !c.is_zero()).collect()
}
pub fn sat<F: Field>(c: &Con<F>, v: &[F]) -> bool {
    let mut a = eval(&c.0, v);
    a.mul_assign(&eval(&c.1, v));
    a == eval(&c.2, v)
}
