//! Native curve arithmetic, stated on affine coordinates.
use fawkes_crypto::core::field::{Field, PrimeField, PrimeFieldRepr};
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::num::Num;

/// projective representative of (x, y) with scale z
fn ex<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> EdwardsPointEx<F> { EdwardsPointEx { x: x * z, y: y * z, t: x * y * z, z } }
fn aff<F: Field>(p: EdwardsPointEx<F>) -> (Num<F>, Num<F>, Num<F>) { (p.x / p.z, p.y / p.z, p.t / p.z) }

pub fn s_ex_add<F: Field, J: JubJubParams<Fr = F>>(x: Num<F>, y: Num<F>, z: Num<F>, u: Num<F>, v: Num<F>, w: Num<F>, j: &J) -> (Num<F>, Num<F>, Num<F>) {
    aff(ex(x, y, z).add(&ex(u, v, w), j))
}
pub fn r_ex_add<F: Field, J: JubJubParams<Fr = F>>(x: Num<F>, y: Num<F>, z: Num<F>, u: Num<F>, v: Num<F>, w: Num<F>, j: &J) -> (Num<F>, Num<F>, Num<F>) {
    let c = j.edwards_d() * x * y * u * v;
    let a = (x * v + y * u) / (Num::one() + c);
    let b = (y * v + x * u) / (Num::one() - c);
    (a, b, a * b)
}
pub fn s_ex_double<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> (Num<F>, Num<F>, Num<F>) { aff(ex(x, y, z).double()) }
pub fn r_ex_double<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> (Num<F>, Num<F>, Num<F>) {
    // 1 + d x^2 y^2 = y^2 - x^2 on the curve
    let k = y * y - x * x;
    let a = (x * y + x * y) / k;
    let b = (y * y + x * x) / (Num::one() + Num::one() - k);
    (a, b, a * b)
}
pub fn s_ex_neg<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> (Num<F>, Num<F>, Num<F>) { aff(ex(x, y, z).negate()) }
pub fn r_ex_neg<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> (Num<F>, Num<F>, Num<F>) { (-x, y, -(x * y)) }
pub fn s_ex_affine<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> EdwardsPoint<F> { ex(x, y, z).into_affine() }
pub fn r_ex_affine<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> EdwardsPoint<F> { EdwardsPoint { x: x * z / z, y: y * z / z } }
pub fn s_ex_zero<F: Field>() -> (Num<F>, Num<F>, Num<F>) { aff(EdwardsPointEx::<F>::zero()) }
pub fn r_ex_zero<F: Field>() -> (Num<F>, Num<F>, Num<F>) { (Num::from(false), Num::from(true), Num::from(false)) }
pub fn s_ex_cofactor<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> EdwardsPointEx<F> { ex(x, y, z).mul_by_cofactor() }
pub fn r_ex_cofactor<F: Field>(x: Num<F>, y: Num<F>, z: Num<F>) -> EdwardsPointEx<F> { ex(x, y, z).double().double().double() }
pub fn s_ex_eq<F: Field>(a: &EdwardsPointEx<F>, b: &EdwardsPointEx<F>) -> bool { a == b }
pub fn r_ex_eq<F: Field>(a: &EdwardsPointEx<F>, b: &EdwardsPointEx<F>) -> bool {
    (a.x * b.z - b.x * a.z).is_zero() && (a.y * b.z - b.y * a.z).is_zero()
}
pub fn s_ex_is_zero<F: Field>(a: &EdwardsPointEx<F>) -> bool { a.is_zero() }
pub fn r_ex_is_zero<F: Field>(a: &EdwardsPointEx<F>) -> bool { (a.y - a.z).is_zero() && a.x.is_zero() }
pub fn s_ex_in_curve<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPointEx<F>, j: &J) -> bool { a.is_in_curve(j) }
pub fn r_ex_in_curve<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPointEx<F>, j: &J) -> bool {
    if a.z.is_zero() { return false; }
    (a.t * a.z - a.x * a.y).is_zero() && (a.y * a.y - a.x * a.x - a.z * a.z - j.edwards_d() * a.t * a.t).is_zero()
}
pub fn s_ex_montgomery<F: Field>(a: &EdwardsPointEx<F>) -> Option<MontgomeryPoint<F>> { a.into_montgomery() }
pub fn r_ex_montgomery<F: Field>(a: &EdwardsPointEx<F>) -> Option<MontgomeryPoint<F>> { a.into_affine().into_montgomery() }
pub fn s_ex_mul<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPointEx<F>, n: Num<J::Fs>, j: &J) -> EdwardsPointEx<F> { a.mul(n, j) }
pub fn r_ex_mul<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPointEx<F>, n: Num<J::Fs>, j: &J) -> EdwardsPointEx<F> {
    let mut acc = EdwardsPointEx::zero();
    for bit in n.iterbit_be() {
        acc = acc.double();
        if bit { acc = acc.add(a, j); }
    }
    acc
}
pub fn s_ex_in_subgroup<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPointEx<F>, j: &J) -> bool { a.is_in_subgroup(j) }
pub fn r_ex_in_subgroup<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPointEx<F>, j: &J) -> bool {
    let mut acc = EdwardsPointEx::zero();
    for bit in ff::BitIterator::new(J::Fs::char()) {
        acc = acc.double();
        if bit { acc = acc.add(a, j); }
    }
    acc.is_zero()
}

pub fn s_add<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPoint<F>, b: &EdwardsPoint<F>, j: &J) -> EdwardsPoint<F> { a.add(b, j) }
pub fn r_add<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPoint<F>, b: &EdwardsPoint<F>, j: &J) -> EdwardsPoint<F> {
    let c = j.edwards_d() * a.x * a.y * b.x * b.y;
    EdwardsPoint { x: (a.x * b.y + a.y * b.x) / (Num::one() + c), y: (a.y * b.y + a.x * b.x) / (Num::one() - c) }
}
pub fn s_double<F: Field>(a: &EdwardsPoint<F>) -> EdwardsPoint<F> { a.double() }
pub fn r_double<F: Field>(a: &EdwardsPoint<F>) -> EdwardsPoint<F> {
    let k = a.y * a.y - a.x * a.x;
    EdwardsPoint { x: (a.x + a.x) * a.y / k, y: (a.y * a.y + a.x * a.x) / (Num::one() + Num::one() - k) }
}
pub fn s_cofactor<F: Field>(a: &EdwardsPoint<F>) -> EdwardsPoint<F> { a.mul_by_cofactor() }
pub fn r_cofactor<F: Field>(a: &EdwardsPoint<F>) -> EdwardsPoint<F> { a.into_extended().double().double().double().into_affine() }
pub fn s_mul<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPoint<F>, n: Num<J::Fs>, j: &J) -> EdwardsPoint<F> { a.mul(n, j) }
pub fn r_mul<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPoint<F>, n: Num<J::Fs>, j: &J) -> EdwardsPoint<F> { a.into_extended().mul(n, j).into_affine() }
pub fn s_zero<F: Field>() -> EdwardsPoint<F> { EdwardsPoint::zero() }
pub fn r_zero<F: Field>() -> EdwardsPoint<F> { EdwardsPoint { x: Num::from(false), y: Num::from(true) } }
pub fn s_is_zero<F: Field>(a: &EdwardsPoint<F>) -> bool { a.is_zero() }
pub fn r_is_zero<F: Field>(a: &EdwardsPoint<F>) -> bool { a.x.is_zero() && (a.y - Num::one()).is_zero() }
pub fn s_in_curve<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPoint<F>, j: &J) -> bool { a.is_in_curve(j) }
pub fn r_in_curve<F: Field, J: JubJubParams<Fr = F>>(a: &EdwardsPoint<F>, j: &J) -> bool {
    (Num::one() + j.edwards_d() * a.x * a.x * a.y * a.y - a.y * a.y + a.x * a.x).is_zero()
}
pub fn s_extended<F: Field>(a: &EdwardsPoint<F>) -> EdwardsPointEx<F> { a.into_extended() }
pub fn r_extended<F: Field>(a: &EdwardsPoint<F>) -> EdwardsPointEx<F> { EdwardsPointEx { x: a.x, y: a.y, t: a.y * a.x, z: Num::from(true) } }
pub fn s_montgomery<F: Field>(a: &EdwardsPoint<F>) -> Option<MontgomeryPoint<F>> { a.into_montgomery() }
pub fn r_montgomery<F: Field>(a: &EdwardsPoint<F>) -> Option<MontgomeryPoint<F>> {
    if !a.x.is_zero() {
        let one = Num::one();
        Some(MontgomeryPoint { x: (one + a.y) / (one - a.y), y: (one + a.y) / ((one - a.y) * a.x) })
    } else if a.y == Num::one() {
        None
    } else {
        Some(MontgomeryPoint { x: Num::zero(), y: Num::zero() })
    }
}
pub fn s_m_affine<F: Field>(a: &MontgomeryPoint<F>) -> EdwardsPoint<F> { a.into_affine() }
pub fn r_m_affine<F: Field>(a: &MontgomeryPoint<F>) -> EdwardsPoint<F> {
    if !a.x.is_zero() {
        EdwardsPoint { x: a.x / a.y, y: (a.x - Num::one()) / (a.x + Num::one()) }
    } else {
        EdwardsPoint { x: Num::zero(), y: Num::minusone() }
    }
}
pub fn s_m_extended<F: Field>(a: &MontgomeryPoint<F>) -> EdwardsPointEx<F> { a.into_extended() }
pub fn r_m_extended<F: Field>(a: &MontgomeryPoint<F>) -> EdwardsPointEx<F> { a.into_affine().into_extended() }

pub fn s_get_for_y<F: Field, J: JubJubParams<Fr = F>>(y: Num<F>, sign: bool, j: &J) -> Option<EdwardsPoint<F>> { EdwardsPoint::get_for_y(y, sign, j) }
pub fn r_get_for_y<F: Field, J: JubJubParams<Fr = F>>(y: Num<F>, sign: bool, j: &J) -> Option<EdwardsPoint<F>> {
    // x^2 (1 + d y^2) = y^2 - 1
    match ((y * y - Num::one()) / (Num::one() + j.edwards_d() * y * y)).sqrt() {
        None => None,
        Some(x) => Some(EdwardsPoint { x: if x.is_odd() == sign { x } else { -x }, y }),
    }
}
pub fn s_decompress<F: Field, J: JubJubParams<Fr = F>>(x: Num<F>, j: &J) -> Option<EdwardsPoint<F>> { EdwardsPoint::subgroup_decompress(x, j) }
pub fn r_decompress<F: Field, J: JubJubParams<Fr = F>>(x: Num<F>, j: &J) -> Option<EdwardsPoint<F>> {
    // y^2 (1 - d x^2) = 1 + x^2; of the two roots the one of order dividing |Fs| is chosen
    let y = match ((Num::one() + x * x) / (Num::one() - j.edwards_d() * x * x)).sqrt() { Some(y) => y, None => return None };
    let mut acc = EdwardsPointEx::zero();
    let p = EdwardsPoint { x, y }.into_extended();
    for bit in ff::BitIterator::new(J::Fs::char()) {
        acc = acc.double();
        if bit { acc = acc.add(&p, j); }
    }
    let l = acc.into_affine();
    if !l.x.is_zero() { return None; }
    Some(EdwardsPoint { x, y: if l.y == Num::one() { y } else { -y } })
}
pub fn s_from_scalar<F: Field, J: JubJubParams<Fr = F>>(t: Num<F>, j: &J) -> EdwardsPoint<F> { EdwardsPoint::from_scalar(t, j) }
pub fn r_from_scalar<F: Field, J: JubJubParams<Fr = F>>(t: Num<F>, j: &J) -> EdwardsPoint<F> {
    let (a, b, u) = (j.montgomery_a(), j.montgomery_b(), j.montgomery_u());
    let g = |x: Num<F>| (x * x * x + a * x * x + x) / b;
    let even = |y: Num<F>| if y.is_odd() { -y } else { y };
    let w = (t + Num::one()) * (t + Num::one()) * u;
    let x2 = -(Num::one() + Num::one() / w) / a;
    let m = match g(x2).sqrt() {
        Some(y) => MontgomeryPoint { x: x2, y: even(y) },
        None => {
            let x3 = x2 * w;
            let y = g(x3).sqrt().unwrap();
            MontgomeryPoint { x: x3, y: even(y) }
        }
    };
    m.into_extended().mul_by_cofactor().into_affine()
}
pub fn s_from_scalar_raw<F: Field>(t: Num<F>, a: Num<F>, b: Num<F>, u: Num<F>) -> EdwardsPoint<F> { EdwardsPoint::from_scalar_raw(t, a, b, u) }
pub fn r_from_scalar_raw<F: Field>(t: Num<F>, a: Num<F>, b: Num<F>, u: Num<F>) -> EdwardsPoint<F> {
    let g = |x: Num<F>| (x * x * x + a * x * x + x) / b;
    let even = |y: Num<F>| if y.is_odd() { -y } else { y };
    let w = (t + Num::one()) * (t + Num::one()) * u;
    let x2 = -(Num::one() + Num::one() / w) / a;
    let m = match g(x2).sqrt() {
        Some(y) => MontgomeryPoint { x: x2, y: even(y) },
        None => {
            let x3 = x2 * w;
            let y = g(x3).sqrt().unwrap();
            MontgomeryPoint { x: x3, y: even(y) }
        }
    };
    m.into_extended().mul_by_cofactor().into_affine()
}
