//! linear operators of circuit numbers, every form
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::{cs::ConstraintSystem, signal::Signal};
use fawkes_crypto::native::num::Num;
type N<'a, CS> = CNum<'a, CS>;
type F<CS> = Num<<CS as ConstraintSystem>::F>;

macro_rules! forms { ($m:ident, $op:tt, $aop:tt) => { pub mod $m {
    use super::*;
    pub fn vv<'a, CS: ConstraintSystem>(a: N<'a, CS>, b: N<'a, CS>) -> N<'a, CS> { a $op b }
    pub fn vr<'a, CS: ConstraintSystem>(a: N<'a, CS>, b: &N<'a, CS>) -> N<'a, CS> { a $op b }
    pub fn rv<'a, CS: ConstraintSystem>(a: &N<'a, CS>, b: N<'a, CS>) -> N<'a, CS> { a $op b }
    pub fn rr<'a, CS: ConstraintSystem>(a: &N<'a, CS>, b: &N<'a, CS>) -> N<'a, CS> { a $op b }
    pub fn av<'a, CS: ConstraintSystem>(a: &mut N<'a, CS>, b: N<'a, CS>) { *a $aop b }
    pub fn ar<'a, CS: ConstraintSystem>(a: &mut N<'a, CS>, b: &N<'a, CS>) { *a $aop b }
} } }
forms!(add, +, +=);
forms!(sub, -, -=);
macro_rules! cforms { ($m:ident, $op:tt, $aop:tt) => { pub mod $m {
    use super::*;
    pub fn vv<'a, CS: ConstraintSystem>(a: N<'a, CS>, b: F<CS>) -> N<'a, CS> { a $op b }
    pub fn vr<'a, CS: ConstraintSystem>(a: N<'a, CS>, b: &F<CS>) -> N<'a, CS> { a $op b }
    pub fn rv<'a, CS: ConstraintSystem>(a: &N<'a, CS>, b: F<CS>) -> N<'a, CS> { a $op b }
    pub fn rr<'a, CS: ConstraintSystem>(a: &N<'a, CS>, b: &F<CS>) -> N<'a, CS> { a $op b }
    pub fn av<'a, CS: ConstraintSystem>(a: &mut N<'a, CS>, b: F<CS>) { *a $aop b }
    pub fn ar<'a, CS: ConstraintSystem>(a: &mut N<'a, CS>, b: &F<CS>) { *a $aop b }
} } }
cforms!(cadd, +, +=);
cforms!(csub, -, -=);
cforms!(cmul, *, *=);
cforms!(cdiv, /, /=);
macro_rules! lforms { ($m:ident, $op:tt) => { pub mod $m {
    use super::*;
    pub fn vv<'a, CS: ConstraintSystem>(a: F<CS>, b: N<'a, CS>) -> N<'a, CS> { a $op b }
    pub fn vr<'a, CS: ConstraintSystem>(a: F<CS>, b: &N<'a, CS>) -> N<'a, CS> { a $op b }
    pub fn rv<'a, CS: ConstraintSystem>(a: &F<CS>, b: N<'a, CS>) -> N<'a, CS> { a $op b }
    pub fn rr<'a, CS: ConstraintSystem>(a: &F<CS>, b: &N<'a, CS>) -> N<'a, CS> { a $op b }
} } }
lforms!(ladd, +);
lforms!(lsub, -);
lforms!(lmul, *);
pub mod neg {
    use super::*;
    pub fn v<'a, CS: ConstraintSystem>(a: N<'a, CS>) -> N<'a, CS> { -a }
    pub fn r<'a, CS: ConstraintSystem>(a: &N<'a, CS>) -> N<'a, CS> { -a }
}
pub mod view {
    use super::*;
    pub fn as_const<'a, CS: ConstraintSystem>(a: &N<'a, CS>) -> Option<F<CS>> { a.as_const() }
    pub fn get_value<'a, CS: ConstraintSystem>(a: &N<'a, CS>) -> Option<F<CS>> { a.get_value() }
    pub fn clone<'a, CS: ConstraintSystem>(a: &N<'a, CS>) -> N<'a, CS> { a.clone() }
    pub fn from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &F<CS>) -> N<'a, CS> { CNum::from_const(cs, v) }
    pub fn from_var<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<F<CS>>, i: Index) -> N<'a, CS> { CNum::from_var(cs, v, i) }
    pub fn derive_var<'a, CS: ConstraintSystem>(s: &N<'a, CS>, v: Option<F<CS>>, i: Index) -> N<'a, CS> { s.derive_var(v, i) }
    pub fn alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&F<CS>>) -> N<'a, CS> { CNum::alloc(cs, v) }
}
