use blake2_rfc::blake2s::Blake2s;
use fawkes_crypto::circuit::{bool::CBool, ecc::CEdwardsPoint, bitify::*, num::CNum, poseidon::*, eddsaposeidon::*};
use fawkes_crypto::core::{cs::ConstraintSystem, field::{Field, PrimeField}, signal::Signal, sizedvec::SizedVec};
use fawkes_crypto::native::{ecc::*, eddsaposeidon::*, num::Num, poseidon::*};
const PERSONALIZATION: &[u8] = b"__fawkes";
const SEED_EDDSA_POSEIDON: &[u8] = b"eddsaposeidon";
use typenum::Unsigned;

/// the published permutation: add round constant, x^5 on all lanes in full rounds and on lane 0 in
/// the partial rounds between the two halves of full rounds, then the matrix
pub fn r_poseidon<F: Field>(inputs: &[Num<F>], params: &PoseidonParams<F>) -> Num<F> {
    assert!(inputs.len() <= params.t && inputs.len() > 0);
    let mut st: Vec<Num<F>> = [inputs, &vec![Num::zero(); params.t - inputs.len()]].concat();
    let half = params.f / 2;
    for r in 0..params.f + params.p {
        let mut nx: Vec<Num<F>> = st.iter().map(|e| *e + params.c[r]).collect();
        let full = r < half || r >= half + params.p;
        for j in 0..params.t {
            if full || j == 0 { nx[j] = nx[j] * nx[j] * nx[j] * nx[j] * nx[j]; }
        }
        st = (0..params.t)
            .map(|i| {
                let mut s = Num::zero();
                for j in 0..params.t { s += params.m[i][j] * nx[j]; }
                s
            })
            .collect();
    }
    st[0]
}
pub fn s_poseidon<F: Field>(inputs: &[Num<F>], params: &PoseidonParams<F>) -> Num<F> { poseidon(inputs, params) }
pub fn s_c_poseidon<'a, CS: ConstraintSystem>(inputs: &[CNum<'a, CS>], params: &PoseidonParams<CS::F>) -> CNum<'a, CS> { c_poseidon(inputs, params) }
pub fn s_poseidon_salt<F: Field>(inputs: &[Num<F>], seed: &[u8], params: &PoseidonParams<F>) -> Num<F> { poseidon_with_salt(inputs, seed, params) }
pub fn r_poseidon_salt<F: Field>(inputs: &[Num<F>], seed: &[u8], params: &PoseidonParams<F>) -> Num<F> {
    assert!(inputs.len() > 0 && inputs.len() < params.t);
    let v: Vec<Num<F>> = inputs.iter().cloned().chain(std::iter::once(Num::from_seed(seed))).collect();
    poseidon(&v, params)
}
pub fn s_c_poseidon_salt<'a, CS: ConstraintSystem>(inputs: &[CNum<'a, CS>], seed: &[u8], params: &PoseidonParams<CS::F>) -> CNum<'a, CS> { c_poseidon_with_salt(inputs, seed, params) }
pub fn s_proof_root<F: Field, L: Unsigned>(leaf: Num<F>, proof: &MerkleProof<F, L>, params: &PoseidonParams<F>) -> Num<F> { poseidon_merkle_proof_root(leaf, proof, params) }
pub fn r_proof_root<F: Field, L: Unsigned>(leaf: Num<F>, proof: &MerkleProof<F, L>, params: &PoseidonParams<F>) -> Num<F> {
    let mut cur = leaf;
    for i in 0..L::USIZE {
        let s = proof.sibling[i];
        cur = if proof.path[i] { poseidon(&[s, cur], params) } else { poseidon(&[cur, s], params) };
    }
    cur
}
pub fn s_c_proof_root<'a, CS: ConstraintSystem, L: Unsigned>(leaf: &CNum<'a, CS>, proof: &CMerkleProof<'a, CS, L>, params: &PoseidonParams<CS::F>) -> CNum<'a, CS> { c_poseidon_merkle_proof_root(leaf, proof, params) }
pub fn s_tree_root<F: Field>(leaf: &[Num<F>], params: &PoseidonParams<F>) -> Num<F> { poseidon_merkle_tree_root(leaf, params) }
pub fn r_tree_root<F: Field>(leaf: &[Num<F>], params: &PoseidonParams<F>) -> Num<F> {
    assert!(leaf.len() > 0);
    let depth = 64 - (leaf.len() - 1).leading_zeros() as usize;
    let width = 1usize << depth;
    let mut row = [leaf, &vec![Num::zero(); width - leaf.len()]].concat();
    for lvl in 0..depth {
        for i in 0..width >> (lvl + 1) {
            let h = poseidon(&[row[2 * i], row[2 * i + 1]], params);
            row[i] = h;
        }
    }
    row[0]
}
pub fn s_c_tree_root<'a, CS: ConstraintSystem>(leaf: &[CNum<'a, CS>], params: &PoseidonParams<CS::F>) -> CNum<'a, CS> { c_poseidon_merkle_tree_root(leaf, params) }

pub fn s_sign<Fr: Field, J: JubJubParams<Fr = Fr>>(sk: Num<J::Fs>, m: Num<Fr>, pp: &PoseidonParams<Fr>, j: &J) -> (Num<J::Fs>, Num<Fr>) { eddsaposeidon_sign(sk, m, pp, j) }
pub fn s_verify<Fr: Field, J: JubJubParams<Fr = Fr>>(s: Num<J::Fs>, r: Num<Fr>, a: Num<Fr>, m: Num<Fr>, pp: &PoseidonParams<Fr>, j: &J) -> bool { eddsaposeidon_verify(s, r, a, m, pp, j) }
pub fn r_verify<Fr: Field, J: JubJubParams<Fr = Fr>>(s: Num<J::Fs>, r: Num<Fr>, a: Num<Fr>, m: Num<Fr>, pp: &PoseidonParams<Fr>, j: &J) -> bool {
    match (EdwardsPoint::subgroup_decompress(a, j), EdwardsPoint::subgroup_decompress(r, j)) {
        (Some(pa), Some(pr)) => {
            let h: Num<J::Fs> = poseidon_with_salt(&[r, a, m], SEED_EDDSA_POSEIDON, pp).into_other();
            j.edwards_g().mul(s, j) == pa.mul(h, j).add(&pr, j)
        }
        _ => false,
    }
}
pub fn s_c_verify<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(s: &CNum<'a, CS>, r: &CNum<'a, CS>, a: &CNum<'a, CS>, m: &CNum<'a, CS>, pp: &PoseidonParams<CS::F>, j: &J) -> CBool<'a, CS> {
    c_eddsaposeidon_verify(s, r, a, m, pp, j)
}
pub fn r_c_verify<'a, CS: ConstraintSystem, J: JubJubParams<Fr = CS::F>>(s: &CNum<'a, CS>, r: &CNum<'a, CS>, a: &CNum<'a, CS>, m: &CNum<'a, CS>, pp: &PoseidonParams<CS::F>, j: &J) -> CBool<'a, CS> {
    assert!(CS::F::NUM_BITS > <J::Fs as PrimeField>::NUM_BITS);
    let pa = CEdwardsPoint::subgroup_decompress(a, j);
    let pr = CEdwardsPoint::subgroup_decompress(r, j);
    let h = c_into_bits_le_strict(&c_poseidon_with_salt(&[r.clone(), a.clone(), m.clone()], SEED_EDDSA_POSEIDON, pp));
    let right = pa.mul(&h, j).add(&pr, j);
    let g: CEdwardsPoint<'a, CS> = CEdwardsPoint::from_const(s.get_cs(), j.edwards_g());
    let left = g.mul(&c_into_bits_le(s, <J::Fs as PrimeField>::NUM_BITS as usize), j);
    left.x.is_eq(&right.x)
}

pub fn r_sign<Fr: Field, J: JubJubParams<Fr = Fr>>(sk: Num<J::Fs>, m: Num<Fr>, pp: &PoseidonParams<Fr>, j: &J) -> (Num<J::Fs>, Num<Fr>) {
    let mut seed = sk.into_binary_be();
    seed.extend_from_slice(&m.into_binary_be());
    let mut h = Blake2s::with_params(32, &[], &[], PERSONALIZATION);
    h.update(&seed);
    let nonce = Num::<J::Fs>::from_binary_be(h.finalize().as_ref());
    let rx = j.edwards_g().mul(nonce, j).x;
    let ax = j.edwards_g().mul(sk, j).x;
    let e: Num<J::Fs> = poseidon_with_salt(&[rx, ax, m], SEED_EDDSA_POSEIDON, pp).into_other();
    (e * sk + nonce, rx)
}
// signing then verifying
pub fn s_signed<Fr: Field, J: JubJubParams<Fr = Fr>>(sk: Num<J::Fs>, m: Num<Fr>, pp: &PoseidonParams<Fr>, j: &J) -> bool {
    let (s, r) = eddsaposeidon_sign(sk, m, pp, j);
    let a = j.edwards_g().mul(sk, j).x;
    eddsaposeidon_verify(s, r, a, m, pp, j)
}
pub fn r_signed<Fr: Field, J: JubJubParams<Fr = Fr>>(sk: Num<J::Fs>, m: Num<Fr>, pp: &PoseidonParams<Fr>, j: &J) -> bool {
    let _ = eddsaposeidon_sign(sk, m, pp, j);
    true
}
