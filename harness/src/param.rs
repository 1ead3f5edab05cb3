//! Randomness and derived parameters.
use std::fmt::Debug;
use bellman::{groth16 as bg, SynthesisError};
use blake2_rfc::blake2s::Blake2s;
use fawkes_crypto::constants::{PERSONALIZATION, SEED_EDWARDS_G};
use fawkes_crypto::core::cs::Circuit;
use fawkes_crypto::core::field::{Field, PrimeField};
use fawkes_crypto::core::osrng::OsRng;
use fawkes_crypto::core::seedbox::SeedboxBlake2;
use fawkes_crypto::helpers::groth16::prover::{generate_keys, prove, Proof};
use fawkes_crypto::helpers::groth16::Groth16CS;
use fawkes_crypto::native::ecc::EdwardsPoint;
use fawkes_crypto::native::num::Num;
use fawkes_crypto::native::poseidon::PoseidonParams;
use fawkes_crypto::native::{bls12_381 as nbls, bn256 as nbn};
use pairing::Engine;
use rand::{Rand, Rng};

// ---- secrets
pub struct HC<'a, C: Circuit>(pub &'a C);
impl<'a, BE: Engine, C: Circuit<F = BE::Fr>> bellman::Circuit<BE> for HC<'a, C> {
    fn synthesize<CS: bellman::ConstraintSystem<BE>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let g = Groth16CS::new(cs.namespace(|| "root"));
        self.0.synthesize(&g);
        Ok(())
    }
}
pub fn s_gen_keys<BE: Engine, C: Circuit<F = BE::Fr> + Default>() -> bg::Parameters<BE> { generate_keys::<BE, C>() }
pub fn r_gen_keys<BE: Engine, C: Circuit<F = BE::Fr> + Default>() -> bg::Parameters<BE> {
    let c = C::default();
    let mut rng = OsRng::new();
    match bg::generate_random_parameters(HC(&c), &mut rng) { Ok(x) => x, Err(_) => panic!() }
}
pub fn s_prove<BE: Engine, C: Circuit<F = BE::Fr>>(c: &C, p: &bg::Parameters<BE>) -> Proof<BE> { prove(c, p) }
pub fn r_prove<BE: Engine, C: Circuit<F = BE::Fr>>(c: &C, p: &bg::Parameters<BE>) -> Proof<BE> {
    let mut rng = OsRng::new();
    match bg::create_random_proof(HC(c), p, &mut rng) { Ok(x) => Proof(x), Err(_) => panic!() }
}
pub fn s_os_next(mut r: OsRng) -> u32 { r.next_u32() }
pub fn r_os_next(mut r: OsRng) -> u32 {
    let mut b = [0u8; 4];
    if getrandom::getrandom(&mut b).is_err() { panic!() }
    u32::from_be_bytes(b)
}
pub fn r_os_nextb(mut r: OsRng) -> u32 {
    let mut b = [0u8; 4];
    if getrandom::getrandom(&mut b).is_err() { panic!() }
    u32::from_le_bytes(b)
}
pub fn s_os_next64(mut r: OsRng) -> u64 { r.next_u64() }
pub fn r_os_next64a(mut r: OsRng) -> u64 {
    let mut b = [0u8; 8];
    if getrandom::getrandom(&mut b).is_err() { panic!() }
    u64::from_be_bytes(b)
}
pub fn r_os_next64b(mut r: OsRng) -> u64 {
    let mut b = [0u8; 8];
    if getrandom::getrandom(&mut b).is_err() { panic!() }
    u64::from_le_bytes(b)
}
pub fn r_os_next64c(mut r: OsRng) -> u64 { ((r.next_u32() as u64) << 32) | (r.next_u32() as u64) }
pub fn s_os_fill(mut r: OsRng, b: &mut [u8]) { r.fill_bytes(b) }
pub fn r_os_fill(mut r: OsRng, b: &mut [u8]) { if getrandom::getrandom(b).is_err() { panic!() } }
pub fn s_num_rand<F: Field, R: Rng>(r: &mut R) -> Num<F> { <Num<F> as Rand>::rand(r) }
pub fn r_num_rand<F: Field, R: Rng>(r: &mut R) -> Num<F> { Num(r.gen()) }

// ---- seed stream (state: salt, next block number, next word of the block, block)
pub struct SB { pub salt: Option<[u8; 32]>, pub n_iter: u64, pub n_limb: usize, pub buff: [u8; 32] }
pub fn s_seed_new() -> SeedboxBlake2 { SeedboxBlake2::new() }
pub fn r_seed_new() -> SB { SB { salt: None, n_iter: 0, n_limb: 8, buff: [0; 32] } }
pub fn s_seed_salt(s: &[u8]) -> SeedboxBlake2 { SeedboxBlake2::new_with_salt(s) }
pub fn r_seed_salt(s: &[u8]) -> SB {
    let mut h = Blake2s::new(32);
    h.update(s);
    let mut b = [0u8; 32];
    b.copy_from_slice(h.finalize().as_bytes());
    SB { salt: Some(b), n_iter: 0, n_limb: 8, buff: [0; 32] }
}
pub fn s_seed_next(r: &mut SeedboxBlake2) -> u32 { r.next_u32() }
pub fn r_seed_next(r: &mut SB) -> u32 {
    if r.n_limb == 8 {
        let mut h = Blake2s::with_params(32, &[], &[], PERSONALIZATION);
        h.update(&r.n_iter.to_le_bytes());
        if let Some(s) = r.salt { h.update(&s); }
        r.n_iter += 1;
        r.n_limb = 0;
        r.buff.copy_from_slice(h.finalize().as_bytes());
    }
    let i = r.n_limb * 4;
    r.n_limb += 1;
    u32::from_le_bytes([r.buff[i], r.buff[i + 1], r.buff[i + 2], r.buff[i + 3]])
}
pub fn s_poseidon_params<F: Field>(t: usize, f: usize, p: usize) -> PoseidonParams<F> { PoseidonParams::new(t, f, p) }
pub fn r_poseidon_params<F: Field>(t: usize, f: usize, p: usize) -> PoseidonParams<F> {
    let mut s = SeedboxBlake2::new_with_salt(format!("fawkes_poseidon(t={},f={},p={})", t, f, p).as_bytes());
    let mut c = vec![];
    for _ in 0..f + p { let x: Num<F> = s.gen(); c.push(x) }
    let mut m = vec![];
    for _ in 0..t { let mut r = vec![]; for _ in 0..t { let x: Num<F> = s.gen(); r.push(x) } m.push(r) }
    PoseidonParams { c, m, t, f, p }
}
fn draw(mut r: SeedboxBlake2) -> Vec<u32> { let mut v = vec![]; for _ in 0..18 { v.push(r.next_u32()) } v }
fn words(salt: Option<&[u8]>) -> Vec<u32> {
    let mut v = vec![];
    for i in 0..18usize {
        let mut h = Blake2s::with_params(32, &[], &[], PERSONALIZATION);
        h.update(&((i / 8) as u64).to_le_bytes());
        if let Some(s) = salt { let mut g = Blake2s::new(32); g.update(s); h.update(g.finalize().as_bytes()); }
        let mut b = [0u8; 32];
        b.copy_from_slice(h.finalize().as_bytes());
        let j = i % 8 * 4;
        v.push(u32::from_le_bytes([b[j], b[j + 1], b[j + 2], b[j + 3]]));
    }
    v
}
pub fn s_seed_stream(s: &[u8]) -> Vec<u32> { draw(SeedboxBlake2::new_with_salt(s)) }
pub fn r_seed_stream(s: &[u8]) -> Vec<u32> { words(Some(s)) }
pub fn s_seed_stream0() -> Vec<u32> { draw(SeedboxBlake2::new()) }
pub fn r_seed_stream0() -> Vec<u32> { words(None) }

// ---- curve parameters
macro_rules! jj { ($m:ident, $n:ident, $J:ident) => { pub mod $m {
    use super::*;
    use fawkes_crypto::native::ecc::JubJubParams;
    type Fr = $n::Fr;
    pub fn s_g() -> EdwardsPoint<Fr> { *$n::$J::new().edwards_g() }
    pub fn r_g() -> EdwardsPoint<Fr> { let j = $n::$J::new(); EdwardsPoint::from_scalar_raw(Num::from_seed(SEED_EDWARDS_G), j.montgomery_a(), j.montgomery_b(), j.montgomery_u()) }
    pub fn k_d() -> Num<Fr> { $n::$J::new().edwards_d() }
    pub fn k_a() -> Num<Fr> { $n::$J::new().montgomery_a() }
    pub fn k_b() -> Num<Fr> { $n::$J::new().montgomery_b() }
    pub fn k_u() -> Num<Fr> { $n::$J::new().montgomery_u() }
    pub fn k_seed() -> &'static [u8] { SEED_EDWARDS_G }
} } }
jj!(bn, nbn, JubJubBN256);
jj!(bls, nbls, JubJubBLS12_381);
