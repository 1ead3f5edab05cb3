//! Circuit curve arithmetic.
use fawkes_crypto::circuit::{bitify::c_into_bits_le_strict, bool::CBool, ecc::{CEdwardsPoint, CMontgomeryPoint}, mux::c_mux3, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, field::Field, signal::Signal};
use fawkes_crypto::native::ecc::{EdwardsPoint, EdwardsPointEx, JubJubParams, MontgomeryPoint};
use fawkes_crypto::native::num::Num;

type C<'a, CS> = CEdwardsPoint<'a, CS>;
type M<'a, CS> = CMontgomeryPoint<'a, CS>;
fn two<F: Field>() -> Num<F> { Num::one() + Num::one() }
fn three<F: Field>() -> Num<F> { two::<F>() + Num::one() }

pub fn s_add<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, q: &C<'a, CS>, j: &J) -> C<'a, CS> { p.add(q, j) }
pub fn r_add<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, q: &C<'a, CS>, j: &J) -> C<'a, CS> {
    let c = &p.x * &p.y * &q.x * &q.y * j.edwards_d();
    CEdwardsPoint { x: (&p.x * &q.y + &p.y * &q.x) / (Num::one() + &c), y: (&p.y * &q.y + &p.x * &q.x) / (Num::one() - &c) }
}
pub fn s_double<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) -> C<'a, CS> { p.double(j) }
pub fn r_double<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) -> C<'a, CS> {
    let xy = &p.x * &p.y;
    let c = &xy * &xy * j.edwards_d();
    CEdwardsPoint { x: (&xy + &xy) / (Num::one() + &c), y: (&p.y * &p.y + &p.x * &p.x) / (Num::one() - &c) }
}
pub fn s_cofactor<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) -> C<'a, CS> { p.mul_by_cofactor(j) }
pub fn r_cofactor<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) -> C<'a, CS> {
    let p2 = p.double(j);
    let p4 = p2.double(j);
    p4.double(j)
}
pub fn s_in_curve<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) { p.assert_in_curve(j) }
pub fn r_in_curve<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) {
    let (x2, y2) = (&p.x * &p.x, &p.y * &p.y);
    p.x.cs.enforce(&(Num::one() + &x2 * &y2 * j.edwards_d()), &p.x.derive_one(), &(&y2 - &x2));
}
// membership in the subgroup: the point is 8 times a curve point
pub fn s_in_subgroup<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) { p.assert_in_subgroup(j) }
pub fn r_in_subgroup<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, j: &J) {
    let hint = match p.get_value() { Some(v) => Some(v.mul(Num::from(8u64).inverse(), j)), None => None };
    let q = CEdwardsPoint::alloc(p.get_cs(), hint.as_ref());
    q.assert_in_curve(j);
    let q8 = q.double(j).double(j).double(j);
    q8.x.assert_eq(&p.x);
    q8.y.assert_eq(&p.y);
}
pub fn s_decompress<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(x: &CNum<'a, CS>, j: &J) -> C<'a, CS> { CEdwardsPoint::subgroup_decompress(x, j) }
pub fn r_decompress<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(x: &CNum<'a, CS>, j: &J) -> C<'a, CS> {
    let hint = match x.get_value() {
        Some(x) => Some(match EdwardsPoint::subgroup_decompress(x, j) { Some(p) => p, None => *j.edwards_g() }.mul(Num::from(8u64).inverse(), j)),
        None => None,
    };
    let q = CEdwardsPoint::alloc(x.get_cs(), hint.as_ref());
    q.assert_in_curve(j);
    let q8 = q.double(j).double(j).double(j);
    q8.x.assert_eq(x);
    q8
}
pub fn s_montgomery<'a, CS: ConstraintSystem>(p: &C<'a, CS>) -> M<'a, CS> { p.into_montgomery() }
pub fn r_montgomery<'a, CS: ConstraintSystem>(p: &C<'a, CS>) -> M<'a, CS> {
    let u = (Num::one() + &p.y) / (Num::one() - &p.y);
    CMontgomeryPoint { y: &u / &p.x, x: u }
}
pub fn s_m_edwards<'a, CS: ConstraintSystem>(p: &M<'a, CS>) -> C<'a, CS> { p.into_edwards() }
// (0,0) is sent to (0,-1), every other point to (x/y, (x-1)/(x+1))
pub fn r_m_edwards<'a, CS: ConstraintSystem>(p: &M<'a, CS>) -> C<'a, CS> {
    let z = p.y.is_zero();
    CEdwardsPoint { x: &p.x / (&p.y + &z.0), y: (&p.x - Num::one()) / (&p.x + Num::one()) }
}
pub fn s_m_add<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &M<'a, CS>, q: &M<'a, CS>, j: &J) -> M<'a, CS> { p.add(q, j) }
pub fn r_m_add<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &M<'a, CS>, q: &M<'a, CS>, j: &J) -> M<'a, CS> {
    let l = (&q.y - &p.y) / (&q.x - &p.x);
    let x = &l * &l * j.montgomery_b() - j.montgomery_a() - &p.x - &q.x;
    let y = &l * (&p.x - &x) - &p.y;
    CMontgomeryPoint { x, y }
}
pub fn s_m_double<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &M<'a, CS>, j: &J) -> M<'a, CS> { p.double(j) }
pub fn r_m_double<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &M<'a, CS>, j: &J) -> M<'a, CS> {
    let (a, b) = (j.montgomery_a(), j.montgomery_b());
    let l = (&p.x * &p.x * three() + &p.x * (two::<CS::F>() * a) + Num::one()) / (&p.y * (two::<CS::F>() * b));
    let x = &l * &l * b - a - &p.x - &p.x;
    let y = &l * (&p.x - &x) - &p.y;
    CMontgomeryPoint { x, y }
}
pub fn s_mul<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, bits: &[CBool<'a, CS>], j: &J) -> C<'a, CS> { p.mul(bits, j) }
pub fn r_mul<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(p: &C<'a, CS>, bits: &[CBool<'a, CS>], j: &J) -> C<'a, CS> {
    let cs = p.get_cs();
    if let Some(c) = p.as_const() {
        let c = c.into_extended();
        if c.is_zero() { return CEdwardsPoint::from_const(cs, &EdwardsPoint::zero()); }
        // windows of three bits select 1..8 times the running base; the start value subtracts the
        // surplus sum of bases and is shifted by the point of order two, removed at the end
        let pad = (3 - bits.len() % 3) % 3;
        let mut all = bits.to_vec();
        for _ in 0..pad { all.push(CBool::c_false(cs)); }
        let n = all.len() / 3;
        let mut base = c;
        let mut start = EdwardsPoint { x: Num::zero(), y: Num::minusone() }.into_extended();
        for _ in 0..n {
            start = start.add(&base, j);
            base = base.double().double().double();
        }
        let mut acc: M<'a, CS> = CMontgomeryPoint::from_const(cs, &start.negate().into_montgomery().unwrap());
        let mut base = c;
        for i in 0..n {
            let mut xs = vec![];
            let mut ys = vec![];
            let mut q = base;
            for _ in 0..8 {
                let m = q.into_montgomery().unwrap();
                xs.push(m.x);
                ys.push(m.y);
                q = q.add(&base, j);
            }
            let sel = c_mux3(&all[3 * i..3 * i + 3], &[xs, ys]);
            acc = acc.add(&CMontgomeryPoint { x: sel[0].clone(), y: sel[1].clone() }, j);
            base = base.double().double().double();
        }
        let e = acc.into_edwards();
        CEdwardsPoint { x: -e.x, y: -e.y }
    } else {
        let z = p.x.is_zero();
        let g: C<'a, CS> = CEdwardsPoint::from_const(cs, j.edwards_g());
        let base = CEdwardsPoint { x: g.x.switch(&z, &p.x), y: g.y.switch(&z, &p.y) };
        let mut cur = base.into_montgomery();
        let mut pw = vec![cur.clone()];
        for _ in 1..bits.len() {
            cur = cur.double(j);
            pw.push(cur.clone());
        }
        let start: M<'a, CS> = CMontgomeryPoint { x: CNum::from_const(cs, &Num::zero()), y: CNum::from_const(cs, &Num::zero()) };
        let mut acc = start.clone();
        for i in 0..bits.len() {
            let s = acc.add(&pw[i], j);
            acc = CMontgomeryPoint { x: s.x.switch(&bits[i], &acc.x), y: s.y.switch(&bits[i], &acc.y) };
        }
        acc = CMontgomeryPoint { x: start.x.switch(&z, &acc.x), y: start.y.switch(&z, &acc.y) };
        let e = acc.into_edwards();
        CEdwardsPoint { x: -e.x, y: -e.y }
    }
}
pub fn s_from_scalar<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(t: &CNum<'a, CS>, j: &J) -> C<'a, CS> { CEdwardsPoint::from_scalar(t, j) }
pub fn r_from_scalar<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(t: &CNum<'a, CS>, j: &J) -> C<'a, CS> {
    fn root<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(x: &CNum<'a, CS>, j: &J) -> (CBool<'a, CS>, CNum<'a, CS>) {
        let g = (x * x * x + x * x * j.montgomery_a() + x) / j.montgomery_b();
        let even = |y: Num<CS::F>| if y.is_odd() { -y } else { y };
        let hint = match g.get_value() {
            Some(v) => Some(match v.sqrt() { Some(y) => even(y), None => even((v * j.montgomery_u()).sqrt().unwrap()) }),
            None => None,
        };
        let y = CNum::alloc(x.get_cs(), hint.as_ref());
        // canonical (even) representative
        c_into_bits_le_strict(&y)[0].0.assert_zero();
        let is = (&y * &y - &g).is_zero();
        let isnt = (&y * &y - &g * j.montgomery_u()).is_zero();
        (&is.0 + &isnt.0).assert_const(&Num::one());
        (is, y)
    }
    let t1 = t + Num::one();
    let w = &t1 * &t1 * j.montgomery_u();
    let x3 = (&w + Num::one()) * (-Num::one() / j.montgomery_a());
    let x2 = &x3 / &w;
    let (ok, y2) = root(&x2, j);
    let (_, y3) = root(&x3, j);
    let m = CMontgomeryPoint { x: x2.switch(&ok, &x3), y: y2.switch(&ok, &y3) };
    m.into_edwards().mul_by_cofactor(j)
}
