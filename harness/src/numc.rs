//! Native field elements: operator forms, predicates, conversions and encodings.
use std::io;
use std::str::FromStr;
use blake2_rfc::blake2s::Blake2s;
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::core::field::{AbstractField, Field, PrimeField, PrimeFieldRepr, SqrtField};
use fawkes_crypto::native::num::{BitIteratorLE, Num};
use num::bigint::{BigInt, BigUint};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
type N<F> = Num<F>;

macro_rules! forms { ($m:ident, $op:tt, $aop:tt, $r:expr) => { pub mod $m {
    use super::*;
    pub fn s_vv<F: Field>(a: N<F>, b: N<F>) -> N<F> { a $op b }
    pub fn s_vr<F: Field>(a: N<F>, b: &N<F>) -> N<F> { a $op b }
    pub fn s_rv<F: Field>(a: &N<F>, b: N<F>) -> N<F> { a $op b }
    pub fn s_rr<F: Field>(a: &N<F>, b: &N<F>) -> N<F> { a $op b }
    pub fn s_av<F: Field>(a: &mut N<F>, b: N<F>) { *a $aop b }
    pub fn s_ar<F: Field>(a: &mut N<F>, b: &N<F>) { *a $aop b }
    fn op<F: Field>(a: F, b: F) -> F { let f: fn(F, F) -> F = $r; f(a, b) }
    pub fn r_vv<F: Field>(a: N<F>, b: N<F>) -> N<F> { Num(op(a.0, b.0)) }
    pub fn r_vr<F: Field>(a: N<F>, b: &N<F>) -> N<F> { Num(op(a.0, b.0)) }
    pub fn r_rv<F: Field>(a: &N<F>, b: N<F>) -> N<F> { Num(op(a.0, b.0)) }
    pub fn r_rr<F: Field>(a: &N<F>, b: &N<F>) -> N<F> { Num(op(a.0, b.0)) }
    pub fn r_av<F: Field>(a: &mut N<F>, b: N<F>) { a.0 = op(a.0, b.0) }
    pub fn r_ar<F: Field>(a: &mut N<F>, b: &N<F>) { a.0 = op(a.0, b.0) }
} } }
fn f_add<F: Field>(mut a: F, b: F) -> F { a.add_assign(&b); a }
fn f_sub<F: Field>(mut a: F, b: F) -> F { a.sub_assign(&b); a }
fn f_mul<F: Field>(mut a: F, b: F) -> F { a.mul_assign(&b); a }
fn f_div<F: Field>(mut a: F, b: F) -> F { a.mul_assign(&b.inverse().unwrap()); a }
forms!(add, +, +=, f_add);
forms!(sub, -, -=, f_sub);
forms!(mul, *, *=, f_mul);
forms!(div, /, /=, f_div);

pub fn s_neg_v<F: Field>(a: N<F>) -> N<F> { -a }
pub fn r_neg_v<F: Field>(a: N<F>) -> N<F> { Num(f_sub(F::zero(), a.0)) }
pub fn s_neg_r<F: Field>(a: &N<F>) -> N<F> { -a }
pub fn r_neg_r<F: Field>(a: &N<F>) -> N<F> { Num(f_sub(F::zero(), a.0)) }
pub fn s_double<F: Field>(a: N<F>) -> N<F> { a.double() }
pub fn r_double<F: Field>(a: N<F>) -> N<F> { Num(f_add(a.0, a.0)) }
pub fn s_square<F: Field>(a: N<F>) -> N<F> { a.square() }
pub fn r_square<F: Field>(a: N<F>) -> N<F> { Num(f_mul(a.0, a.0)) }
pub fn s_inverse<F: Field>(a: &N<F>) -> N<F> { a.inverse() }
pub fn r_inverse<F: Field>(a: &N<F>) -> N<F> { Num(f_div(F::one(), a.0)) }
pub fn s_sqrt<F: Field>(a: &N<F>) -> Option<N<F>> { a.sqrt() }
pub fn r_sqrt<F: Field>(a: &N<F>) -> Option<N<F>> { match a.0.sqrt() { Some(r) => Some(Num(r)), None => None } }
pub fn s_zero<F: Field>() -> N<F> { Num::zero() }
pub fn r_zero<F: Field>() -> N<F> { Num(F::zero()) }
pub fn s_one<F: Field>() -> N<F> { Num::one() }
pub fn r_one<F: Field>() -> N<F> { Num(F::one()) }
pub fn s_minusone<F: Field>() -> N<F> { Num::minusone() }
pub fn r_minusone<F: Field>() -> N<F> { Num(f_sub(F::zero(), F::one())) }
pub fn s_is_zero<F: Field>(a: &N<F>) -> bool { a.is_zero() }
pub fn r_is_zero<F: Field>(a: &N<F>) -> bool { a.0 == F::zero() }
pub fn s_eq<F: Field>(a: &N<F>, b: &N<F>) -> bool { a == b }
pub fn r_eq<F: Field>(a: &N<F>, b: &N<F>) -> bool { f_sub(a.0, b.0).is_zero() }
pub fn s_ne<F: Field>(a: &N<F>, b: &N<F>) -> bool { a != b }
pub fn r_ne<F: Field>(a: &N<F>, b: &N<F>) -> bool { !f_sub(a.0, b.0).is_zero() }
pub fn s_is_odd<F: Field>(a: &N<F>) -> bool { a.is_odd() }
pub fn r_is_odd<F: Field>(a: &N<F>) -> bool { a.0.into_repr().is_odd() }
pub fn s_is_even<F: Field>(a: &N<F>) -> bool { a.is_even() }
pub fn r_is_even<F: Field>(a: &N<F>) -> bool { !a.0.into_repr().is_odd() }
pub fn s_into_inner<F: Field>(a: &N<F>) -> F { a.into_inner() }
pub fn r_into_inner<F: Field>(a: &N<F>) -> F { a.0 }
pub fn s_new<F: Field>(a: F) -> N<F> { Num::new(a) }
pub fn r_new<F: Field>(a: F) -> N<F> { Num(a) }
pub fn s_into_bool<F: Field>(a: N<F>) -> bool { a.into_bool() }
pub fn r_into_bool<F: Field>(a: N<F>) -> bool {
    if a.0 == F::one() { return true; }
    if a.0 == F::zero() { return false; }
    panic!()
}

// ---- conversions (the expected value of the s_ functions without a reference is given as a term)
pub fn s_from_u64<F: Field>(n: u64) -> N<F> { Num::from(n) }
pub fn s_from_u32<F: Field>(n: u32) -> N<F> { Num::from(n) }
pub fn s_from_i64<F: Field>(n: i64) -> N<F> { Num::from(n) }
pub fn s_from_i32<F: Field>(n: i32) -> N<F> { Num::from(n) }
pub fn s_from_bool<F: Field>(n: bool) -> N<F> { Num::from(n) }
pub fn r_from_bool<F: Field>(n: bool) -> N<F> { if n { Num(F::one()) } else { Num(F::zero()) } }
pub fn s_from_str<F: Field>(s: &str) -> N<F> { Num::from(s) }
pub fn r_from_str<F: Field>(s: &str) -> N<F> { match F::from_str(s) { Some(x) => Num(x), None => panic!() } }
pub fn s_from_biguint<F: Field>(n: BigUint) -> N<F> { Num::from(n) }
pub fn s_from_bigint<F: Field>(n: BigInt) -> N<F> { Num::from(n) }
pub fn s_into_u64<F: Field>(a: N<F>) -> u64 { a.into() }
pub fn r_into_u64<F: Field>(a: N<F>) -> u64 {
    let repr = a.0.into_repr();
    let r = repr.as_ref();
    for i in 1..r.len() { if r[i] != 0 { panic!() } }
    r[0]
}
pub fn s_into_biguint<F: Field>(a: N<F>) -> BigUint { a.into() }
pub fn s_into_binary<F: Field>(a: &N<F>) -> Vec<u8> { a.into_binary_be() }
pub fn s_from_binary<F: Field>(b: &[u8]) -> N<F> { Num::from_binary_be(b) }
pub fn s_from_other<F: Field, G: Field>(a: N<G>) -> N<F> { Num::from_other(a) }
pub fn s_into_other<F: Field, G: Field>(a: &N<G>) -> N<F> { a.into_other() }
pub fn s_to_string<F: Field>(a: &N<F>) -> String { a.to_string() }
pub fn r_to_string<F: Field>(a: &N<F>) -> String { let b: BigUint = (*a).into(); b.to_string() }
pub fn s_from_seed<F: Field>(b: &[u8]) -> N<F> { Num::from_seed(b) }
pub fn r_from_seed<F: Field>(b: &[u8]) -> N<F> {
    let n = (F::NUM_BITS as usize + 7) / 8;
    let mut h = Blake2s::with_params(n, &[], &[], b"__fawkes");
    h.update(b);
    Num::from(BigUint::from_bytes_be(h.finalize().as_ref()))
}
pub fn s_bits_le<F: Field>(a: &N<F>) -> Vec<bool> { a.iterbit_le().collect() }
pub fn s_bits_be<F: Field>(a: &N<F>) -> Vec<bool> { a.iterbit_be().collect() }

pub fn s_borsh_ser<F: Field, W: io::Write>(a: &N<F>, w: &mut W) -> io::Result<()> { BorshSerialize::serialize(a, w) }
pub fn r_borsh_ser<F: Field, W: io::Write>(a: &N<F>, w: &mut W) -> io::Result<()> { a.0.into_repr().write_le(w) }
pub fn s_borsh_de<F: Field>(b: &mut &[u8]) -> io::Result<N<F>> { BorshDeserialize::deserialize(b) }
pub fn r_borsh_de<F: Field>(b: &mut &[u8]) -> io::Result<N<F>> {
    let mut r = F::zero().into_raw_repr();
    if let Err(e) = r.read_le(b) { return Err(e); }
    match F::from_repr(r) {
        Ok(x) => Ok(Num(x)),
        Err(_) => Err(io::Error::new(io::ErrorKind::InvalidData, "range")),
    }
}
pub fn s_serde_ser<F: Field, S: Serializer>(a: &N<F>, s: S) -> Result<S::Ok, S::Error> { Serialize::serialize(a, s) }
pub fn r_serde_ser<F: Field, S: Serializer>(a: &N<F>, s: S) -> Result<S::Ok, S::Error> {
    let b: BigUint = (*a).into();
    Serialize::serialize(&b.to_string(), s)
}
pub fn s_serde_de<'de, F: Field, D: Deserializer<'de>>(d: D) -> Result<N<F>, D::Error> { Deserialize::deserialize(d) }
pub fn r_serde_de<'de, F: Field, D: Deserializer<'de>>(d: D) -> Result<N<F>, D::Error> {
    let s: String = match Deserialize::deserialize(d) { Ok(s) => s, Err(e) => return Err(e) };
    let v = match BigUint::from_str(&s) { Ok(v) => v, Err(_) => return Err(de::Error::custom("format")) };
    let max: BigUint = Num::<F>(f_sub(F::zero(), F::one())).into();
    if v <= max { Ok(Num::from(v)) } else { Err(de::Error::custom("range")) }
}
