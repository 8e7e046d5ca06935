//! Enumerates assignments of an R1CS extending a partial one.
//! Over a tiny field the enumeration is complete; over a large field free choices are sampled.
use crate::oracle::{sqrt, V};
use crate::rcs::{Con, Lc};
use fawkes_crypto::core::field::Field;

pub struct Solver<'a, F: Field> {
    cons: &'a [Con<F>],
    adj: Vec<Vec<usize>>,
    val: Vec<Option<F>>,
    unk: Vec<usize>,
    cwires: Vec<Vec<usize>>,
    trail: Vec<usize>,
    /// candidates for a wire nothing determines: every element (tiny field) or samples
    free: &'a dyn Fn(usize) -> Vec<F>,
    pub nodes: usize,
    pub budget: usize,
    pub relevant: Vec<bool>,
}

pub enum Roots<F> {
    All,
    Some(Vec<F>),
}

impl<'a, F: Field> Solver<'a, F> {
    pub fn new(
        cons: &'a [Con<F>],
        nwires: usize,
        fixed: &[(usize, F)],
        outs: &[Lc<F>],
        free: &'a dyn Fn(usize) -> Vec<F>,
        budget: usize,
    ) -> Self {
        let mut adj = vec![vec![]; nwires];
        let mut cwires = vec![];
        let mut relevant = vec![false; nwires];
        for (i, c) in cons.iter().enumerate() {
            let mut ws: Vec<usize> = c.0.iter().chain(c.1.iter()).chain(c.2.iter()).map(|x| x.0).collect();
            ws.sort();
            ws.dedup();
            for w in &ws {
                adj[*w].push(i);
                relevant[*w] = true;
            }
            cwires.push(ws);
        }
        for o in outs {
            for (w, _) in o {
                relevant[*w] = true;
            }
        }
        let unk = cwires.iter().map(|w| w.len()).collect();
        let mut s = Solver {
            cons,
            adj,
            val: vec![None; nwires],
            unk,
            cwires,
            trail: vec![],
            free,
            nodes: 0,
            budget,
            relevant,
        };
        s.set(0, F::one());
        for (w, v) in fixed {
            s.set(*w, *v);
        }
        s
    }
    fn set(&mut self, w: usize, v: F) {
        if self.val[w].is_some() {
            return;
        }
        self.val[w] = Some(v);
        self.trail.push(w);
        for c in &self.adj[w] {
            self.unk[*c] -= 1;
        }
    }
    fn undo(&mut self, n: usize) {
        while self.trail.len() > n {
            let w = self.trail.pop().unwrap();
            self.val[w] = None;
            for c in &self.adj[w] {
                self.unk[*c] += 1;
            }
        }
    }
    fn lin(&self, lc: &Lc<F>) -> (V<F>, V<F>) {
        let (mut k, mut m) = (V(F::zero()), V(F::zero()));
        for (w, c) in lc {
            match self.val[*w] {
                Some(v) => k = k + V(v) * V(*c),
                None => m = m + V(*c),
            }
        }
        (k, m)
    }
    fn roots(&self, ci: usize) -> Roots<F> {
        let c = &self.cons[ci];
        let ((a0, a1), (b0, b1), (c0, c1)) = (self.lin(&c.0), self.lin(&c.1), self.lin(&c.2));
        let z = V(F::zero());
        let (q2, q1, q0) = (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0);
        if q2 == z {
            if q1 == z {
                return if q0 == z { Roots::All } else { Roots::Some(vec![]) };
            }
            return Roots::Some(vec![(-q0 / q1).0]);
        }
        let two = V(F::one()) + V(F::one());
        let disc = q1 * q1 - (two + two) * q2 * q0;
        match sqrt(disc.0) {
            None => Roots::Some(vec![]),
            Some(s) => {
                let s = V(s);
                let r1 = (s - q1) / (two * q2);
                let r2 = (-s - q1) / (two * q2);
                Roots::Some(if r1 == r2 { vec![r1.0] } else { vec![r1.0, r2.0] })
            }
        }
    }
    /// the single unknown wire of a constraint
    fn unknown(&self, ci: usize) -> usize {
        *self.cwires[ci].iter().find(|w| self.val[**w].is_none()).unwrap()
    }
    /// false: conflict
    fn propagate(&mut self, mut queue: Vec<usize>) -> bool {
        while let Some(ci) = queue.pop() {
            match self.unk[ci] {
                0 => {
                    if let Roots::Some(_) = self.roots(ci) {
                        return false;
                    }
                }
                1 => {
                    if let Roots::Some(r) = self.roots(ci) {
                        if r.is_empty() {
                            return false;
                        }
                        if r.len() == 1 {
                            let w = self.unknown(ci);
                            self.set(w, r[0]);
                            queue.extend(self.adj[w].iter());
                        }
                    }
                }
                _ => {}
            }
        }
        true
    }
    /// calls `found` with each satisfying assignment (irrelevant wires are zero);
    /// `found` returns false to stop. Result: true if the search space was exhausted.
    pub fn run(&mut self, found: &mut dyn FnMut(&[F]) -> bool) -> bool {
        let all = (0..self.cons.len()).rev().collect();
        let n = self.trail.len();
        let mut stop = false;
        let mut complete = true;
        if self.propagate(all) {
            self.dfs(found, &mut stop, &mut complete);
        }
        self.undo(n);
        complete && !stop
    }
    fn dfs(&mut self, found: &mut dyn FnMut(&[F]) -> bool, stop: &mut bool, complete: &mut bool) {
        self.nodes += 1;
        if self.nodes > self.budget {
            *complete = false;
            *stop = true;
            return;
        }
        // choose
        let mut best: Option<(usize, Vec<F>)> = None;
        let mut fewest: Option<(usize, usize)> = None;
        for ci in 0..self.cons.len() {
            let u = self.unk[ci];
            if u == 1 {
                let w = self.unknown(ci);
                if let Roots::Some(r) = self.roots(ci) {
                    if best.as_ref().map(|b| r.len() < b.1.len()).unwrap_or(true) {
                        best = Some((w, r));
                    }
                    break;
                }
            } else if u > 1 && fewest.map(|f| u < f.0).unwrap_or(true) {
                fewest = Some((u, ci));
            }
        }
        let (w, cand) = match best {
            Some(b) => b,
            None => {
                let w = match fewest {
                    Some((_, ci)) => Some(self.unknown(ci)),
                    None => (0..self.val.len()).find(|w| self.relevant[*w] && self.val[*w].is_none()),
                };
                match w {
                    None => {
                        let v: Vec<F> = self.val.iter().map(|x| x.unwrap_or(F::zero())).collect();
                        if !found(&v) {
                            *stop = true;
                        }
                        return;
                    }
                    Some(w) => (w, (self.free)(w)),
                }
            }
        };
        for v in cand {
            let n = self.trail.len();
            self.set(w, v);
            let q = self.adj[w].clone();
            if self.propagate(q) {
                self.dfs(found, stop, complete);
            }
            self.undo(n);
            if *stop {
                return;
            }
        }
    }
}
