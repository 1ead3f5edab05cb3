//! Groth16 helpers: point import, formats, verification equation, constraint-system back ends, randomness.
use std::io::{self, Read, Write};
use std::mem::transmute;
use bellman::{groth16 as bg, SynthesisError};
use borsh::{BorshDeserialize, BorshSerialize};
use fawkes_crypto::circuit::num::{CNum, Index};
use fawkes_crypto::core::cs::{ConstraintSystem, TestCS};
use fawkes_crypto::core::field::{AbstractField, Field, PrimeField};
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::helpers::groth16::{G1PointData, G2PointData, Groth16CS};
use fawkes_crypto::native::num::Num;
use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, EncodedPoint, Engine};

// mirrors of the types with private fields: same fields, same order
#[derive(Clone, Copy)]
pub struct P1<F: Field>(pub Num<F>, pub Num<F>);
#[derive(Clone, Copy)]
pub struct P2<F: Field>(pub (Num<F>, Num<F>), pub (Num<F>, Num<F>));
pub struct PD<F: Field> { pub a: P1<F>, pub b: P2<F>, pub c: P1<F> }
pub struct VD<F: Field> { pub alpha_g1: P1<F>, pub beta_g2: P2<F>, pub gamma_g2: P2<F>, pub delta_g2: P2<F>, pub ic: Vec<P1<F>> }

fn on_curve<F: AbstractField>(x: F, y: F, b: F) -> bool {
    let mut l = y; l.mul_assign(&y);
    let mut r = x; r.mul_assign(&x); r.mul_assign(&x); r.add_assign(&b);
    l == r
}

macro_rules! curve { ($m:ident, $c:ident, $E:ty, $b:expr, $b0:expr, $b1:expr, $cof1:expr) => { pub mod $m {
    use super::*;
    type Q = $c::Fq;
    fn b1() -> Q { Q::from_str($b).unwrap() }
    fn b2() -> $c::Fq2 { $c::Fq2 { c0: Q::from_str($b0).unwrap(), c1: Q::from_str($b1).unwrap() } }
    pub fn s_g1_into(p: G1PointData<Q>) -> $c::G1Affine { p.into() }
    pub fn r_g1_into(p: P1<Q>) -> $c::G1Affine {
        let (x, y) = ((p.0).0, (p.1).0);
        let inf = x.is_zero() && y.is_zero();
        if !inf && !on_curve(x, y, b1()) { panic!() }
        let r: $c::G1Affine = unsafe { transmute((x, y, inf)) };
        if $cof1 && !r.mul($c::Fr::char()).is_zero() { panic!() }
        r
    }
    pub fn s_g2_into(p: G2PointData<Q>) -> $c::G2Affine { p.into() }
    pub fn r_g2_into(p: P2<Q>) -> $c::G2Affine {
        let x = $c::Fq2 { c0: ((p.0).1).0, c1: ((p.0).0).0 };
        let y = $c::Fq2 { c0: ((p.1).1).0, c1: ((p.1).0).0 };
        let inf = x.is_zero() && y.is_zero();
        if !inf && !on_curve(x, y, b2()) { panic!() }
        let r: $c::G2Affine = unsafe { transmute((x, y, inf)) };
        if !r.mul($c::Fr::char()).is_zero() { panic!() }
        r
    }
    pub fn s_g1_from(p: $c::G1Affine) -> G1PointData<Q> { G1PointData::from(p) }
    pub fn r_g1_from(p: $c::G1Affine) -> P1<Q> {
        let (x, y, inf): (Q, Q, bool) = unsafe { transmute(p) };
        if inf { P1(Num(Q::zero()), Num(Q::zero())) } else { P1(Num(x), Num(y)) }
    }
    pub fn s_g2_from(p: $c::G2Affine) -> G2PointData<Q> { G2PointData::from(p) }
    pub fn r_g2_from(p: $c::G2Affine) -> P2<Q> {
        let (x, y, inf): ($c::Fq2, $c::Fq2, bool) = unsafe { transmute(p) };
        let z = Num(Q::zero());
        if inf { P2((z, z), (z, z)) } else { P2((Num(x.c1), Num(x.c0)), (Num(y.c1), Num(y.c0))) }
    }
    pub fn s_proof_from_data(p: &ProofData<Q>) -> Proof<$E> { Proof::<$E>::from_data(p) }
    pub fn r_proof_from_data(p: &PD<Q>) -> Proof<$E> { Proof(bg::Proof { a: r_g1_into(p.a), b: r_g2_into(p.b), c: r_g1_into(p.c) }) }
    pub fn s_proof_into_data(p: &Proof<$E>) -> ProofData<Q> { p.into_data() }
    pub fn r_proof_into_data(p: &Proof<$E>) -> PD<Q> { PD { a: r_g1_from(p.0.a), b: r_g2_from(p.0.b), c: r_g1_from(p.0.c) } }
    pub fn s_vk_from_data(p: &TruncatedVerifyingKeyData<Q>) -> TruncatedVerifyingKey<$E> { TruncatedVerifyingKey::<$E>::from_data(p) }
    pub fn r_vk_from_data(p: &VD<Q>) -> TruncatedVerifyingKey<$E> {
        let mut ic = vec![];
        let (alpha_g1, beta_g2, gamma_g2, delta_g2) = (r_g1_into(p.alpha_g1), r_g2_into(p.beta_g2), r_g2_into(p.gamma_g2), r_g2_into(p.delta_g2));
        for q in p.ic.iter() { ic.push(r_g1_into(*q)) }
        TruncatedVerifyingKey { alpha_g1, beta_g2, gamma_g2, delta_g2, ic }
    }
    pub fn s_vk_into_data(p: &TruncatedVerifyingKey<$E>) -> TruncatedVerifyingKeyData<Q> { p.into_data() }
    pub fn r_vk_into_data(p: &TruncatedVerifyingKey<$E>) -> VD<Q> {
        VD { alpha_g1: r_g1_from(p.alpha_g1), beta_g2: r_g2_from(p.beta_g2), gamma_g2: r_g2_from(p.gamma_g2), delta_g2: r_g2_from(p.delta_g2),
             ic: p.ic.iter().map(|q| r_g1_from(*q)).collect() }
    }
    pub fn s_proof_write<W: Write>(p: &Proof<$E>, w: W) -> io::Result<()> { p.write(w) }
    pub fn r_proof_write<W: Write>(p: &Proof<$E>, w: W) -> io::Result<()> { p.0.write(w) }
    pub fn s_proof_read<R: Read>(r: R) -> io::Result<Proof<$E>> { Proof::<$E>::read(r) }
    pub fn r_proof_read<R: Read>(r: R) -> io::Result<Proof<$E>> { match bg::Proof::read(r) { Ok(p) => Ok(Proof(p)), Err(e) => Err(e) } }
} } }
curve!(bn, bn256, bn256::Bn256, "3",
    "19485874751759354771024239261021720505790618469301721065564631296452457478373",
    "266929791119991161246907387137283842545076965332900288569378510910307636690", false);
curve!(bls, bls12_381, bls12_381::Bls12, "4", "4", "4", true);

// ---- borsh formats
pub fn s_g1_ser<F: Field, W: Write>(p: &G1PointData<F>, w: &mut W) -> io::Result<()> { p.serialize(w) }
pub fn r_g1_ser<F: Field, W: Write>(p: &P1<F>, w: &mut W) -> io::Result<()> { p.0.serialize(w)?; p.1.serialize(w)?; Ok(()) }
pub fn s_g1_de<F: Field>(b: &mut &[u8]) -> io::Result<G1PointData<F>> { BorshDeserialize::deserialize(b) }
pub fn r_g1_de<F: Field>(b: &mut &[u8]) -> io::Result<P1<F>> { let x: Num<F> = BorshDeserialize::deserialize(b)?; let y = BorshDeserialize::deserialize(b)?; Ok(P1(x, y)) }
pub fn s_g2_ser<F: Field, W: Write>(p: &G2PointData<F>, w: &mut W) -> io::Result<()> { p.serialize(w) }
pub fn r_g2_ser<F: Field, W: Write>(p: &P2<F>, w: &mut W) -> io::Result<()> {
    (p.0).1.serialize(w)?; (p.0).0.serialize(w)?; (p.1).1.serialize(w)?; (p.1).0.serialize(w)?; Ok(())
}
pub fn s_g2_de<F: Field>(b: &mut &[u8]) -> io::Result<G2PointData<F>> { BorshDeserialize::deserialize(b) }
pub fn r_g2_de<F: Field>(b: &mut &[u8]) -> io::Result<P2<F>> {
    let x0: Num<F> = BorshDeserialize::deserialize(b)?; let x1 = BorshDeserialize::deserialize(b)?;
    let y0: Num<F> = BorshDeserialize::deserialize(b)?; let y1 = BorshDeserialize::deserialize(b)?;
    Ok(P2((x1, x0), (y1, y0)))
}
pub fn s_proof_ser<F: Field, W: Write>(p: &ProofData<F>, w: &mut W) -> io::Result<()> { p.serialize(w) }
pub fn r_proof_ser<F: Field, W: Write>(p: &PD<F>, w: &mut W) -> io::Result<()> { r_g1_ser(&p.a, w)?; r_g2_ser(&p.b, w)?; r_g1_ser(&p.c, w)?; Ok(()) }
pub fn s_proof_de<F: Field>(b: &mut &[u8]) -> io::Result<ProofData<F>> { BorshDeserialize::deserialize(b) }
pub fn r_proof_de<F: Field>(w: &mut &[u8]) -> io::Result<PD<F>> { let a = r_g1_de(w)?; let b = r_g2_de(w)?; let c = r_g1_de(w)?; Ok(PD { a, b, c }) }
pub fn s_vk_ser<F: Field, W: Write>(p: &TruncatedVerifyingKeyData<F>, w: &mut W) -> io::Result<()> { p.serialize(w) }
pub fn r_vk_ser<F: Field, W: Write>(p: &VD<F>, w: &mut W) -> io::Result<()> {
    r_g1_ser(&p.alpha_g1, w)?; r_g2_ser(&p.beta_g2, w)?; r_g2_ser(&p.gamma_g2, w)?; r_g2_ser(&p.delta_g2, w)?;
    p.ic.serialize(w)
}
pub fn s_vk_de<F: Field>(b: &mut &[u8]) -> io::Result<TruncatedVerifyingKeyData<F>> { BorshDeserialize::deserialize(b) }

pub fn r_vk_de<F: Field>(b: &mut &[u8]) -> io::Result<VD<F>> {
    let alpha_g1 = r_g1_de(b)?; let beta_g2 = r_g2_de(b)?; let gamma_g2 = r_g2_de(b)?; let delta_g2 = r_g2_de(b)?;
    let ic: Vec<P1<F>> = BorshDeserialize::deserialize(b)?;
    Ok(VD { alpha_g1, beta_g2, gamma_g2, delta_g2, ic })
}
impl<F: Field> BorshSerialize for P1<F> { fn serialize<W: Write>(&self, w: &mut W) -> io::Result<()> { r_g1_ser(self, w) } }
impl<F: Field> BorshDeserialize for P1<F> { fn deserialize(b: &mut &[u8]) -> io::Result<Self> { r_g1_de(b) } }

// ---- compressed key format
pub fn s_vk_write<E: Engine, W: Write>(p: &TruncatedVerifyingKey<E>, w: W) -> io::Result<()> { p.write(w) }
pub fn r_vk_write<E: Engine, W: Write>(p: &TruncatedVerifyingKey<E>, mut w: W) -> io::Result<()> {
    w.write_all(p.alpha_g1.into_compressed().as_ref())?;
    w.write_all(p.beta_g2.into_compressed().as_ref())?;
    w.write_all(p.gamma_g2.into_compressed().as_ref())?;
    w.write_all(p.delta_g2.into_compressed().as_ref())?;
    for q in p.ic.iter() { w.write_all(q.into_compressed().as_ref())?; }
    Ok(())
}
pub fn s_vk_read<E: Engine, R: Read>(r: R) -> io::Result<TruncatedVerifyingKey<E>> { TruncatedVerifyingKey::read(r) }
fn point<A: CurveAffine, C: EncodedPoint<Affine = A>>(c: &C) -> io::Result<A> {
    match c.into_affine() {
        Ok(p) => if p.is_zero() { Err(io::Error::new(io::ErrorKind::InvalidData, "zero")) } else { Ok(p) },
        Err(e) => Err(io::Error::new(io::ErrorKind::InvalidData, e)),
    }
}
pub fn r_vk_read<E: Engine, R: Read>(mut r: R) -> io::Result<TruncatedVerifyingKey<E>> {
    let mut a = <E::G1Affine as CurveAffine>::Compressed::empty();
    let mut b = <E::G2Affine as CurveAffine>::Compressed::empty();
    let mut g = <E::G2Affine as CurveAffine>::Compressed::empty();
    let mut d = <E::G2Affine as CurveAffine>::Compressed::empty();
    r.read_exact(a.as_mut())?; let alpha_g1 = point(&a)?;
    r.read_exact(b.as_mut())?; let beta_g2 = point(&b)?;
    r.read_exact(g.as_mut())?; let gamma_g2 = point(&g)?;
    r.read_exact(d.as_mut())?; let delta_g2 = point(&d)?;
    let mut v: Vec<u8> = vec![];
    r.read_to_end(&mut v)?;
    let n = <E::G1Affine as CurveAffine>::Compressed::size();
    let (mut ic, mut i) = (vec![], 0);
    while i < v.len() {
        if i + n > v.len() { return Err(io::Error::new(io::ErrorKind::InvalidData, "short")); }
        let mut q = <E::G1Affine as CurveAffine>::Compressed::empty();
        for k in 0..n { q.as_mut()[k] = v[i + k]; }
        ic.push(point(&q)?);
        i += n;
    }
    Ok(TruncatedVerifyingKey { alpha_g1, beta_g2, gamma_g2, delta_g2, ic })
}
pub fn s_truncate<E: Engine>(vk: &bg::VerifyingKey<E>) -> TruncatedVerifyingKey<E> { truncate_verifying_key(vk) }
pub fn r_truncate<E: Engine>(vk: &bg::VerifyingKey<E>) -> TruncatedVerifyingKey<E> {
    TruncatedVerifyingKey { alpha_g1: vk.alpha_g1, beta_g2: vk.beta_g2, gamma_g2: vk.gamma_g2, delta_g2: vk.delta_g2, ic: vk.ic.clone() }
}

// ---- verification equation
pub fn s_verify<E: Engine>(k: &TruncatedVerifyingKey<E>, p: &Proof<E>, x: &[E::Fr]) -> Result<bool, SynthesisError> { verify(k, p, x) }
pub fn r_verify<E: Engine>(k: &TruncatedVerifyingKey<E>, p: &Proof<E>, x: &[E::Fr]) -> Result<bool, SynthesisError> {
    if k.ic.len() != x.len() + 1 { return Err(SynthesisError::MalformedVerifyingKey); }
    let mut s = k.ic[0].into_projective();
    for i in 0..x.len() { s.add_assign(&k.ic[i + 1].mul(x[i].into_repr())); }
    let l = E::miller_loop(&[(&p.0.a.prepare(), &p.0.b.prepare())]);
    let mut r = E::miller_loop(&[(&k.alpha_g1.prepare(), &k.beta_g2.prepare())]);
    r.mul_assign(&E::miller_loop(&[(&s.into_affine().prepare(), &k.gamma_g2.prepare())]));
    r.mul_assign(&E::miller_loop(&[(&p.0.c.prepare(), &k.delta_g2.prepare())]));
    Ok(E::final_exponentiation(&l).unwrap() == E::final_exponentiation(&r).unwrap())
}

// ---- back ends (passed by value and returned, so that their whole state is compared)
type TC<F> = TestCS<F>;
pub fn s_test_new<F: Field>() -> (usize, usize, usize) { let cs = TestCS::<F>::new(); let n = (*cs.ninputs.borrow(), *cs.naux.borrow(), *cs.ncons.borrow()); n }
pub fn r_test_new<F: Field>() -> (usize, usize, usize) { (1, 0, 0) }
pub fn s_test_alloc<F: Field>(cs: TC<F>, v: Option<Num<F>>) -> (Index, TC<F>) { let i = cs.alloc(v); (i, cs) }
pub fn r_test_alloc<F: Field>(cs: TC<F>, v: Option<Num<F>>) -> (Index, TC<F>) {
    let n = *cs.naux.borrow();
    *cs.naux.borrow_mut() = n + 1;
    if let Some(x) = v { cs.variables.borrow_mut().insert(Index::Aux(n), x); }
    (Index::Aux(n), cs)
}
pub fn s_test_alloc_input<F: Field>(cs: TC<F>, v: Option<Num<F>>) -> (Index, TC<F>) { let i = cs.alloc_input(v); (i, cs) }
pub fn r_test_alloc_input<F: Field>(cs: TC<F>, v: Option<Num<F>>) -> (Index, TC<F>) {
    let n = *cs.ninputs.borrow();
    *cs.ninputs.borrow_mut() = n + 1;
    if let Some(x) = v { cs.variables.borrow_mut().insert(Index::Input(n), x); }
    (Index::Input(n), cs)
}
pub fn s_test_fresh<F: Field>(cs: TC<F>, v: Option<Num<F>>, w: Option<Num<F>>) -> bool { let i = cs.alloc(v); let j = cs.alloc(w); let k = cs.alloc_input(v); let l = cs.alloc_input(w); i != j && i != k && i != l && j != k && j != l && k != l }
pub fn r_test_fresh<F: Field>(cs: TC<F>, v: Option<Num<F>>, w: Option<Num<F>>) -> bool { true }
pub fn s_test_notone<F: Field>(v: Option<Num<F>>, w: Option<Num<F>>) -> bool { let cs = TestCS::<F>::new(); let i = cs.alloc(v); let j = cs.alloc_input(w); i != Index::Input(0) && j != Index::Input(0) }
pub fn r_test_notone<F: Field>(v: Option<Num<F>>, w: Option<Num<F>>) -> bool { true }
pub fn s_test_enforce<'a, F: Field>(cs: TC<F>, a: &CNum<'a, TC<F>>, b: &CNum<'a, TC<F>>, c: &CNum<'a, TC<F>>) -> TC<F> { cs.enforce(a, b, c); cs }
pub fn r_test_enforce<'a, F: Field>(cs: TC<F>, a: &CNum<'a, TC<F>>, b: &CNum<'a, TC<F>>, c: &CNum<'a, TC<F>>) -> TC<F> {
    let n = *cs.ncons.borrow();
    *cs.ncons.borrow_mut() = n + 1;
    if let Some(x) = a.value { if let Some(y) = b.value { if let Some(z) = c.value {
        if x * y != z { panic!() }
    } } }
    cs
}
pub fn s_test_num<F: Field>(cs: &TC<F>) -> usize { cs.num_constraints() }
pub fn r_test_num<F: Field>(cs: &TC<F>) -> usize { *cs.ncons.borrow() }

type G<E, B> = Groth16CS<E, B>;
type Counts = (usize, usize, usize);
fn counts<E: Engine, B: bellman::ConstraintSystem<E>>(cs: &G<E, B>) -> Counts { (*cs.ninputs.borrow(), *cs.naux.borrow(), *cs.ncons.borrow()) }
pub fn s_g16_alloc<E: Engine, B: bellman::ConstraintSystem<E>>(cs: G<E, B>, v: Option<Num<E::Fr>>) -> (Index, Counts, B) { let i = cs.alloc(v); (i, counts(&cs), cs.bcs.into_inner()) }
pub fn r_g16_alloc<E: Engine, B: bellman::ConstraintSystem<E>>(cs: G<E, B>, v: Option<Num<E::Fr>>) -> (Index, Counts, B) {
    let n = counts(&cs);
    let r = cs.bcs.borrow_mut().alloc(|| "", || match v { Some(x) => Ok(x.0), None => Err(SynthesisError::AssignmentMissing) });
    let i = match r { Ok(x) => unsafe { transmute(x) }, Err(_) => panic!() };
    (i, (n.0, n.1 + 1, n.2), cs.bcs.into_inner())
}
pub fn s_g16_alloc_input<E: Engine, B: bellman::ConstraintSystem<E>>(cs: G<E, B>, v: Option<Num<E::Fr>>) -> (Index, Counts, B) { let i = cs.alloc_input(v); (i, counts(&cs), cs.bcs.into_inner()) }
pub fn r_g16_alloc_input<E: Engine, B: bellman::ConstraintSystem<E>>(cs: G<E, B>, v: Option<Num<E::Fr>>) -> (Index, Counts, B) {
    let n = counts(&cs);
    let r = cs.bcs.borrow_mut().alloc_input(|| "", || match v { Some(x) => Ok(x.0), None => Err(SynthesisError::AssignmentMissing) });
    let i = match r { Ok(x) => unsafe { transmute(x) }, Err(_) => panic!() };
    (i, (n.0 + 1, n.1, n.2), cs.bcs.into_inner())
}
pub fn s_g16_enforce<'a, E: Engine, B: bellman::ConstraintSystem<E>>(cs: G<E, B>, a: &CNum<'a, G<E, B>>, b: &CNum<'a, G<E, B>>, c: &CNum<'a, G<E, B>>) -> (Counts, B) { cs.enforce(a, b, c); (counts(&cs), cs.bcs.into_inner()) }
pub fn r_g16_enforce<'a, E: Engine, B: bellman::ConstraintSystem<E>>(cs: G<E, B>, a: &CNum<'a, G<E, B>>, b: &CNum<'a, G<E, B>>, c: &CNum<'a, G<E, B>>) -> (Counts, B) {
    let n = counts(&cs);
    fn lc<E: Engine, C: ConstraintSystem<F = E::Fr>>(x: &CNum<C>) -> bellman::LinearCombination<E> {
        let mut v: Vec<(Index, E::Fr)> = vec![];
        for (i, c) in x.lc.iter() { v.push((*i, c.0)); }
        unsafe { transmute(v) }
    }
    let (x, y, z) = (lc(a), lc(b), lc(c));
    cs.bcs.borrow_mut().enforce(|| "", |_| x, |_| y, |_| z);
    ((n.0, n.1, n.2 + 1), cs.bcs.into_inner())
}
pub fn s_g16_new<E: Engine, B: bellman::ConstraintSystem<E>>(b: B) -> (Counts, B) { let cs = G::<E, B>::new(b); (counts(&cs), cs.bcs.into_inner()) }
pub fn r_g16_new<E: Engine, B: bellman::ConstraintSystem<E>>(b: B) -> (Counts, B) { ((1, 0, 0), b) }
pub fn s_sol(vk: &TruncatedVerifyingKeyData<pairing::bn256::Fq>) -> String { fawkes_crypto::helpers::groth16::ethereum::generate_sol_data(vk) }
