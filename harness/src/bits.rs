use fawkes_crypto::circuit::{bitify::*, bool::CBool, mux::c_mux3, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, field::PrimeField, signal::Signal};
use fawkes_crypto::native::num::Num;

pub fn s_into_bits<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, limit: usize) -> Vec<CBool<'a, CS>> { c_into_bits_le(x, limit) }
// non-constant input: bits 1.. are fresh wires carrying the binary expansion, bit 0 is what remains
pub fn r_into_bits<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>, limit: usize) -> Vec<CBool<'a, CS>> {
    match x.as_const() {
        Some(v) => {
            let all: Vec<bool> = v.iterbit_le().collect();
            let mut sum = Num::zero();
            let mut k = Num::one();
            for i in 0..limit {
                if all[i] { sum += k; }
                k += k;
            }
            assert!(sum == v);
            (0..limit).map(|i| CBool::from_const(x.get_cs(), &all[i])).collect()
        }
        None => {
            let vals: Vec<Option<bool>> = match x.get_value() {
                Some(v) => v.iterbit_le().map(Some).collect(),
                None => vec![None; limit],
            };
            let mut res = vec![CBool::c_false(x.get_cs()); limit];
            let mut acc = CNum::zero(x.get_cs());
            let mut k = Num::one();
            for i in 1..limit {
                k = k + k;
                let b = CBool::alloc(x.get_cs(), vals[i].as_ref());
                acc += &b.0 * k;
                res[i] = b;
            }
            let low = x - acc;
            low.assert_bit();
            res[0] = CBool(low);
            res
        }
    }
}

pub fn s_from_bits<'a, CS: ConstraintSystem>(bits: &[CBool<'a, CS>]) -> CNum<'a, CS> { c_from_bits_le(bits) }
pub fn r_from_bits<'a, CS: ConstraintSystem>(bits: &[CBool<'a, CS>]) -> CNum<'a, CS> {
    assert!(bits.len() > 0);
    let mut acc = CNum::zero(bits[0].get_cs());
    let mut k = Num::one();
    for b in bits.iter() {
        acc = acc + &b.0 * k;
        k = k * Num::from(2u64);
    }
    acc
}

pub fn s_strict<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> Vec<CBool<'a, CS>> { c_into_bits_le_strict(x) }
pub fn r_strict<'a, CS: ConstraintSystem>(x: &CNum<'a, CS>) -> Vec<CBool<'a, CS>> {
    let bits = c_into_bits_le(x, CS::F::NUM_BITS as usize);
    c_comp_constant(&bits, -Num::one()).0.assert_zero();
    bits
}

pub fn s_comp<'a, CS: ConstraintSystem>(s: &[CBool<'a, CS>], ct: Num<CS::F>) -> CBool<'a, CS> { c_comp_constant(s, ct) }
// digit-by-digit comparison in base 4: the carry out of (2^n - 1) + sum 2^i * sign(s_i - c_i)
pub fn r_comp<'a, CS: ConstraintSystem>(s: &[CBool<'a, CS>], ct: Num<CS::F>) -> CBool<'a, CS> {
    assert!(s.len() > 0);
    let cs = s[0].get_cs();
    let n = (s.len() >> 1) + (s.len() & 1);
    let mut all: Vec<CBool<'a, CS>> = s.to_vec();
    if s.len() & 1 == 1 { all.push(CBool::c_false(cs)); }
    if ct.iterbit_le().skip(2 * n).any(|b| b) { return CBool::c_false(cs); }
    let c: Vec<bool> = ct.iterbit_le().collect();
    let mut k = Num::one();
    let mut acc = CNum::zero(cs);
    for i in 0..n {
        let l = &all[2 * i].0;
        let u = &all[2 * i + 1].0;
        let lu = l * u;
        // sign of (2u + l) - (2 c_u + c_l)
        let d = if c[2 * i + 1] {
            if c[2 * i] { lu - Num::one() } else { lu + u - Num::one() }
        } else {
            if c[2 * i] { l + u + u - lu - Num::one() } else { l + u - lu }
        };
        acc += d * k;
        k = k + k;
    }
    let bits = c_into_bits_le(&(acc + (k - Num::one())), n + 1);
    bits[n].clone()
}

pub fn s_mux3<'a, CS: ConstraintSystem>(s: &[CBool<'a, CS>], c: &[Vec<Num<CS::F>>]) -> Vec<CNum<'a, CS>> { c_mux3(s, c) }
pub fn r_mux3<'a, CS: ConstraintSystem>(s: &[CBool<'a, CS>], c: &[Vec<Num<CS::F>>]) -> Vec<CNum<'a, CS>> {
    assert!(s.len() == 3);
    for r in c.iter() { assert!(r.len() == 8); }
    let mut res = Vec::new();
    for r in c.iter() {
        let lin = |a: Num<CS::F>, b: Num<CS::F>| s[0].0.derive_const::<CNum<'a, CS>>(&a) + (b - a) * &s[0].0;
        let q0 = lin(r[0], r[1]);
        let q1 = lin(r[2], r[3]);
        let q2 = lin(r[4], r[5]);
        let q3 = lin(r[6], r[7]);
        let h0 = &q0 + &s[1].0 * (&q1 - &q0);
        let h1 = &q2 + &s[1].0 * (&q3 - &q2);
        res.push(&h0 + &s[2].0 * (&h1 - &h0));
    }
    res
}
