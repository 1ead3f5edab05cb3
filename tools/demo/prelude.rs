#![allow(dead_code, unused_imports, unused_macros)]
use fawkes_crypto::circuit::{bitify::*, bool::CBool, ecc::*, eddsaposeidon::*, mux::*, num::{CNum, Index}, poseidon::*};
use fawkes_crypto::core::{cs::{ConstraintSystem, TestCS}, field::*, signal::Signal, sizedvec::SizedVec};
use fawkes_crypto::native::{bn256::{Fr, Fs, JubJubBN256}, ecc::*, eddsaposeidon::*, num::Num, poseidon::*};
use std::cell::RefCell;
use typenum::Unsigned;

type Lc = Vec<(Index, Num<Fr>)>;
/// records every allocation and constraint, so that a dishonest assignment can be checked
pub struct Rec { pub vals: RefCell<Vec<Option<Num<Fr>>>>, pub inputs: RefCell<Vec<usize>>, pub cons: RefCell<Vec<[Lc; 3]>> }
impl Clone for Rec { fn clone(&self) -> Self { panic!() } }
impl Rec {
    pub fn new() -> Self { Rec { vals: RefCell::new(vec![Some(Num::one())]), inputs: RefCell::new(vec![]), cons: RefCell::new(vec![]) } }
    fn lc(x: &CNum<Self>) -> Lc { x.lc.iter().cloned().collect() }
    pub fn eval(&self, l: &Lc, v: &[Num<Fr>]) -> Num<Fr> {
        let mut s = Num::zero();
        for (i, c) in l { s += *c * v[match i { Index::Input(i) => *i, Index::Aux(i) => *i }]; }
        s
    }
    pub fn honest(&self) -> Vec<Num<Fr>> { self.vals.borrow().iter().map(|x| x.unwrap_or(Num::zero())).collect() }
    pub fn ok(&self, v: &[Num<Fr>]) -> bool { self.cons.borrow().iter().all(|[a, b, c]| self.eval(a, v) * self.eval(b, v) == self.eval(c, v)) }
    pub fn n(&self) -> usize { self.vals.borrow().len() }
    pub fn ncons(&self) -> usize { self.cons.borrow().len() }
}
impl ConstraintSystem for Rec {
    type F = Fr;
    fn alloc(&self, v: Option<Num<Fr>>) -> Index { self.vals.borrow_mut().push(v); Index::Aux(self.vals.borrow().len() - 1) }
    fn alloc_input(&self, v: Option<Num<Fr>>) -> Index { let i = self.n(); self.vals.borrow_mut().push(v); self.inputs.borrow_mut().push(i); Index::Input(i) }
    fn enforce(&self, a: &CNum<Self>, b: &CNum<Self>, c: &CNum<Self>) { self.cons.borrow_mut().push([Self::lc(a), Self::lc(b), Self::lc(c)]); }
}
pub fn n(x: u32) -> Num<Fr> { Num::from(x) }
pub fn lcval(cs: &Rec, x: &CNum<Rec>, v: &[Num<Fr>]) -> Num<Fr> { cs.eval(&x.lc.iter().cloned().collect(), v) }
