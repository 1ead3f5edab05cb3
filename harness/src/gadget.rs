//! Boolean signals and constants.
use fawkes_crypto::circuit::{bool::CBool, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, signal::Signal};
use fawkes_crypto::native::num::Num;

pub fn s_zero<'a, CS: ConstraintSystem>(cs: &'a CS) -> CNum<'a, CS> { CNum::zero(cs) }
pub fn r_zero<'a, CS: ConstraintSystem>(cs: &'a CS) -> CNum<'a, CS> { CNum::from_const(cs, &Num::from(false)) }
pub fn s_one<'a, CS: ConstraintSystem>(cs: &'a CS) -> CNum<'a, CS> { CNum::one(cs) }
pub fn r_one<'a, CS: ConstraintSystem>(cs: &'a CS) -> CNum<'a, CS> { CNum::from_const(cs, &Num::from(true)) }
pub fn s_derive_zero<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> CNum<'a, CS> { x.derive_zero() }
pub fn r_derive_zero<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> CNum<'a, CS> { CNum::from_const(x.get_cs(), &Num::from(false)) }
pub fn s_derive_one<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> CNum<'a, CS> { x.derive_one() }
pub fn r_derive_one<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> CNum<'a, CS> { CNum::from_const(x.get_cs(), &Num::from(true)) }
pub fn s_derive_const<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, c: &Num<CS::F>) -> CNum<'a, CS> { x.derive_const(c) }
pub fn r_derive_const<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, c: &Num<CS::F>) -> CNum<'a, CS> { CNum::from_const(x.get_cs(), c) }
pub fn s_derive_alloc<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, c: Option<&Num<CS::F>>) -> CNum<'a, CS> { x.derive_alloc(c) }
pub fn r_derive_alloc<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, c: Option<&Num<CS::F>>) -> CNum<'a, CS> { CNum::alloc(x.get_cs(), c) }
pub fn s_into_bool<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> CBool<'a, CS> { x.into_bool() }
pub fn r_into_bool<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> CBool<'a, CS> { CBool(x.clone()) }
pub fn s_linearize<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> Vec<CNum<'a, CS>> { x.linearize() }
pub fn r_linearize<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> Vec<CNum<'a, CS>> { vec![x.clone()] }

pub fn s_b_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &bool) -> CBool<'a, CS> { CBool::from_const(cs, v) }
pub fn r_b_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &bool) -> CBool<'a, CS> {
    CBool(CNum::from_const(cs, &if *v { Num::one() } else { Num::zero() }))
}
pub fn s_b_true<'a, CS: ConstraintSystem>(cs: &'a CS) -> CBool<'a, CS> { CBool::c_true(cs) }
pub fn r_b_true<'a, CS: ConstraintSystem>(cs: &'a CS) -> CBool<'a, CS> { CBool(CNum::from_const(cs, &Num::one())) }
pub fn s_b_false<'a, CS: ConstraintSystem>(cs: &'a CS) -> CBool<'a, CS> { CBool::c_false(cs) }
pub fn r_b_false<'a, CS: ConstraintSystem>(cs: &'a CS) -> CBool<'a, CS> { CBool(CNum::from_const(cs, &Num::zero())) }
pub fn s_b_get_value<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> Option<bool> { x.get_value() }
pub fn r_b_get_value<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> Option<bool> {
    match x.0.get_value() { Some(v) => Some(v == Num::one()), None => None }
}
pub fn s_b_as_const<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> Option<bool> { x.as_const() }
pub fn r_b_as_const<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> Option<bool> {
    match x.0.as_const() { Some(v) => Some(v == Num::one()), None => None }
}
pub fn s_b_switch<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, b: &CBool<'a, CS>, y: &CBool<'a, CS>) -> CBool<'a, CS> { x.switch(b, y) }
pub fn r_b_switch<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, b: &CBool<'a, CS>, y: &CBool<'a, CS>) -> CBool<'a, CS> {
    CBool(&y.0 + &b.0 * (&x.0 - &y.0))
}
pub fn s_b_if_else<'a, CS: ConstraintSystem>(b: &CBool<'a, CS>, x: &CNum<'a, CS>, y: &CNum<'a, CS>) -> CNum<'a, CS> { b.if_else(x, y) }
pub fn r_b_if_else<'a, CS: ConstraintSystem>(b: &CBool<'a, CS>, x: &CNum<'a, CS>, y: &CNum<'a, CS>) -> CNum<'a, CS> { y + &b.0 * (x - y) }
pub fn s_b_assert_const<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, v: &bool) { x.assert_const(v) }
pub fn r_b_assert_const<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, v: &bool) {
    if *v { x.0.assert_const(&Num::one()) } else { x.0.assert_const(&Num::zero()) }
}
pub fn s_b_assert_eq<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, y: &CBool<'a, CS>) { x.assert_eq(y) }
pub fn r_b_assert_eq<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, y: &CBool<'a, CS>) { (&x.0 - &y.0).assert_zero() }
pub fn s_b_is_eq<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, y: &CBool<'a, CS>) -> CBool<'a, CS> { x.is_eq(y) }
pub fn r_b_is_eq<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>, y: &CBool<'a, CS>) -> CBool<'a, CS> { (&x.0 - &y.0).is_zero() }
pub fn s_b_assert_true<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.assert_true() }
pub fn r_b_assert_true<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.0.assert_const(&Num::one()) }
pub fn s_b_assert_false<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.assert_false() }
pub fn r_b_assert_false<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.0.assert_const(&Num::zero()) }
pub fn s_b_assert<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.assert() }
pub fn r_b_assert<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.0.assert_bit() }
pub fn s_b_inputize<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.inputize() }
pub fn r_b_inputize<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) { x.0.inputize() }
pub fn s_b_into_num<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> CNum<'a, CS> { x.into_num() }
pub fn r_b_into_num<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> CNum<'a, CS> { x.0.clone() }
pub fn s_b_linearize<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> Vec<CNum<'a, CS>> { x.linearize() }
pub fn r_b_linearize<'a, CS: ConstraintSystem>(x: &CBool<'a, CS>) -> Vec<CNum<'a, CS>> { vec![x.0.clone()] }
// an allocated boolean is one witness wire, constrained to be a bit
pub fn s_b_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&bool>) -> CBool<'a, CS> { CBool::alloc(cs, v) }
pub fn r_b_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&bool>) -> CBool<'a, CS> {
    let n = CNum::alloc(cs, match v { Some(b) => Some(if *b { Num::one() } else { Num::zero() }), None => None }.as_ref());
    n.assert_bit();
    CBool(n)
}
