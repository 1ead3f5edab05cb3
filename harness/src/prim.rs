//! Circuit-number primitives: the analysis compares the body (constraints and witnesses) with the
//! meaning the rest of the library assigns to the call.
use fawkes_crypto::circuit::{bool::CBool, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, signal::Signal};
use fawkes_crypto::native::num::Num;

pub fn p_mul<'a, CS: ConstraintSystem>(a: CNum<'a, CS>, b: &CNum<'a, CS>) -> CNum<'a, CS> { a * b }
pub fn p_mul_assign<'a, CS: ConstraintSystem>(a: &mut CNum<'a, CS>, b: &CNum<'a, CS>) { *a *= b }
pub fn p_mul_vv<'a, CS: ConstraintSystem>(a: CNum<'a, CS>, b: CNum<'a, CS>) -> CNum<'a, CS> { a * b }
pub fn p_mul_rv<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, b: CNum<'a, CS>) -> CNum<'a, CS> { a * b }
pub fn p_mul_rr<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, b: &CNum<'a, CS>) -> CNum<'a, CS> { a * b }
pub fn p_mul_assign_v<'a, CS: ConstraintSystem>(a: &mut CNum<'a, CS>, b: CNum<'a, CS>) { *a *= b }
pub fn p_div<'a, CS: ConstraintSystem>(a: CNum<'a, CS>, b: &CNum<'a, CS>) -> CNum<'a, CS> { a / b }
pub fn p_div_assign<'a, CS: ConstraintSystem>(a: &mut CNum<'a, CS>, b: &CNum<'a, CS>) { *a /= b }
pub fn p_div_vv<'a, CS: ConstraintSystem>(a: CNum<'a, CS>, b: CNum<'a, CS>) -> CNum<'a, CS> { a / b }
pub fn p_div_rv<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, b: CNum<'a, CS>) -> CNum<'a, CS> { a / b }
pub fn p_div_rr<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, b: &CNum<'a, CS>) -> CNum<'a, CS> { a / b }
pub fn p_div_assign_v<'a, CS: ConstraintSystem>(a: &mut CNum<'a, CS>, b: CNum<'a, CS>) { *a /= b }
pub fn p_square<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>) -> CNum<'a, CS> { a.square() }
pub fn p_switch<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, bit: &CBool<'a, CS>, b: &CNum<'a, CS>) -> CNum<'a, CS> { a.switch(bit, b) }
pub fn p_inputize<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>) { a.inputize() }
pub fn p_assert_const<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, c: &Num<CS::F>) { a.assert_const(c) }
pub fn p_assert_eq<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, b: &CNum<'a, CS>) { a.assert_eq(b) }
pub fn p_assert_zero<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>) { a.assert_zero() }
pub fn p_assert_nonzero<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>) { a.assert_nonzero() }
pub fn p_assert_bit<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>) { a.assert_bit() }
pub fn p_is_zero<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>) -> CBool<'a, CS> { a.is_zero() }
pub fn p_is_eq<'a, CS: ConstraintSystem>(a: &CNum<'a, CS>, b: &CNum<'a, CS>) -> CBool<'a, CS> { a.is_eq(b) }
pub fn p_b_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&bool>) -> CBool<'a, CS> { CBool::alloc(cs, v) }
