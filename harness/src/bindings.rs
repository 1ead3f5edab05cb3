//! The command-line binding macros, instantiated for a small circuit.
use fawkes_crypto::circuit::{bool::CBool, num::CNum};
use fawkes_crypto::core::{cs::ConstraintSystem, signal::Signal};
use fawkes_crypto::native::num::Num;
use fawkes_crypto_derive::Signal;
use serde::{Deserialize, Serialize};
use fawkes_crypto::groth16_ethereum_bindings;
use fawkes_crypto::groth16_near_bindings;
use fawkes_crypto::groth16_waves_bindings;
use fawkes_crypto::groth16_waves_bindings_bn256;

#[derive(Clone, Serialize, Deserialize)]
pub struct Pub<F: fawkes_crypto::core::field::Field> { #[serde(bound = "")] pub a: Num<F>, pub b: bool, #[serde(bound = "")] pub c: Num<F> }
#[derive(Clone, Signal)]
#[Value = "Pub<CS::F>"]
pub struct CPub<'a, CS: ConstraintSystem> { pub a: CNum<'a, CS>, pub b: CBool<'a, CS>, pub c: CNum<'a, CS> }
#[derive(Clone, Serialize, Deserialize)]
pub struct Sec<F: fawkes_crypto::core::field::Field> { #[serde(bound = "")] pub x: Num<F>, #[serde(bound = "")] pub y: Num<F> }
#[derive(Clone, Signal)]
#[Value = "Sec<CS::F>"]
pub struct CSec<'a, CS: ConstraintSystem> { pub x: CNum<'a, CS>, pub y: CNum<'a, CS> }

pub struct Par(pub u64);
pub static PAR: Par = Par(5);
pub fn main_circuit<'a, CS: ConstraintSystem>(p: &CPub<'a, CS>, s: &CSec<'a, CS>, q: &Par) {
    (&s.x * &s.y - &p.a).assert_zero();
    (&p.c - &s.x).assert_zero();
}
type P1 = Pub<pairing::bn256::Fr>;
type S1 = Sec<pairing::bn256::Fr>;
type P2 = Pub<pairing::bls12_381::Fr>;
type S2 = Sec<pairing::bls12_381::Fr>;
pub fn data1() -> (P1, S1) { loop {} }
pub fn data2() -> (P2, S2) { loop {} }
groth16_ethereum_bindings!(eth, P1, CPub, S1, CSec, PAR, main_circuit, data1);
groth16_waves_bindings!(wav, P2, CPub, S2, CSec, PAR, main_circuit, data2);
groth16_waves_bindings_bn256!(wavbn, P1, CPub, S1, CSec, PAR, main_circuit, data1);
groth16_near_bindings!(near, P1, CPub, S1, CSec, PAR, main_circuit, data1);

// ---- what the generated items must do
use fawkes_crypto::core::field::{Field, PrimeField, PrimeFieldRepr};
use fawkes_crypto::helpers::groth16::{ethereum::generate_sol_data, prover::{generate_keys, prove, Parameters, Proof},
    verifier::{truncate_verifying_key, verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData}};
use fawkes_crypto::{base64, borsh::{BorshDeserialize, BorshSerialize}};
use std::{fs, fs::File, io::{Cursor, Write}};

pub struct Obj<P, S> { pub p: Option<P>, pub s: Option<S> }
pub struct ProveOpts { pub params: String, pub object: String, pub proof: String, pub inputs: String }
pub struct VerifyOpts { pub vk: String, pub proof: String, pub inputs: String }
pub struct SetupOpts { pub params: String, pub vk: String }
pub struct GenerateVerifierOpts { pub vk: String, pub solidity: String }
pub struct GenerateTestDataOpts { pub object: String }

pub fn r_synth<'a, CS: ConstraintSystem>(c: &Obj<Pub<CS::F>, Sec<CS::F>>, cs: &'a CS) {
    let p = CPub::alloc(cs, c.p.as_ref());
    let s = CSec::alloc(cs, c.s.as_ref());
    main_circuit(&p, &s, &PAR);
    p.a.inputize();
    p.b.0.inputize();
    p.c.inputize();
}
pub fn r_inputs<F: Field>(c: &Obj<Pub<F>, Sec<F>>) -> Option<Vec<Num<F>>> {
    match &c.p { Some(p) => Some(vec![p.a, if p.b { Num::one() } else { Num::zero() }, p.c]), None => None }
}
pub fn r_default<P, S>() -> Obj<P, S> { Obj { p: None, s: None } }

macro_rules! common { ($e:ty, $f:ty, $p:ty, $s:ty, $data:ident, $m:ident) => {
    type P = $p;
    type S = $s;
    type E = $e;
    type Fr = $f;
    pub fn r_gen(o: GenerateTestDataOpts) {
        let d: (P, S) = $data();
        fs::write(o.object, serde_json::to_string_pretty(&d).unwrap().into_bytes()).unwrap();
    }
    fn params(o: &ProveOpts) -> Parameters<E> { Parameters::<E>::read(File::open(&o.params).unwrap(), false).unwrap() }
    fn object(o: &ProveOpts) -> (P, S) { serde_json::from_str::<(P, S)>(&fs::read_to_string(&o.object).unwrap()).unwrap() }
    fn put(path: String, data: Vec<u8>) { fs::write(path, data).unwrap() }
    fn get(path: String) -> String { fs::read_to_string(path).unwrap() }
    fn dec(path: String) -> Vec<u8> { base64::decode(&get(path)).unwrap() }
    fn say(ok: bool) { println!("Verify result is {}.", ok) }
} }
macro_rules! text { () => {
    pub fn r_setup(o: SetupOpts) {
        let k = keys();
        let v = serde_json::to_string_pretty(&truncate_verifying_key(&k.vk).into_data()).unwrap();
        k.write(File::create(o.params).unwrap()).unwrap();
        put(o.vk, v.into_bytes());
    }
    pub fn r_sol(o: GenerateVerifierOpts) {
        let vk: TruncatedVerifyingKeyData<pairing::bn256::Fq> = serde_json::from_str(&get(o.vk)).unwrap();
        put(o.solidity, generate_sol_data(&vk).into_bytes());
    }
    pub fn r_verify(o: VerifyOpts) {
        let vk = TruncatedVerifyingKey::<E>::from_data(&serde_json::from_str(&get(o.vk)).unwrap());
        let proof = Proof::<E>::from_data(&serde_json::from_str(&get(o.proof)).unwrap());
        let inputs: Vec<Num<Fr>> = serde_json::from_str::<Vec<Num<Fr>>>(&get(o.inputs)).unwrap();
        let inputs: Vec<Fr> = inputs.iter().map(|n| n.0).collect();
        say(match verify(&vk, &proof, &inputs) { Ok(b) => b, Err(_) => false });
    }
    pub fn r_prove(o: ProveOpts) {
        let k = params(&o);
        let (p, s) = object(&o);
        let c = circuit(p, s);
        let list = fawkes_crypto::core::cs::Circuit::get_inputs(&c).unwrap();
        let proof = prove(&c, &k);
        put(o.proof, serde_json::to_string_pretty(&proof.into_data()).unwrap().into_bytes());
        put(o.inputs, serde_json::to_string_pretty(&list).unwrap().into_bytes());
    }
} }
macro_rules! waves { () => {
    pub fn r_setup(o: SetupOpts) {
        let k = keys();
        let mut d = Cursor::new(Vec::<u8>::new());
        truncate_verifying_key(&k.vk).write(&mut d).unwrap();
        put(o.vk, base64::encode(d.get_ref()).into_bytes());
        k.write(File::create(o.params).unwrap()).unwrap();
    }
    pub fn r_verify(o: VerifyOpts) {
        let vk = TruncatedVerifyingKey::<E>::read(&dec(o.vk)[..]).unwrap();
        let proof = Proof::<E>::read(&dec(o.proof)[..]).unwrap();
        let inputs: Vec<Num<Fr>> = read_num_vec(&dec(o.inputs)[..]).unwrap();
        let inputs: Vec<Fr> = inputs.iter().map(|n| n.0).collect();
        say(match verify(&vk, &proof, &inputs) { Ok(b) => b, Err(_) => false });
    }
    pub fn r_prove(o: ProveOpts) {
        let k = params(&o);
        let (p, s) = object(&o);
        let c = circuit(p, s);
        let list = fawkes_crypto::core::cs::Circuit::get_inputs(&c).unwrap();
        let proof = prove(&c, &k);
        let mut d = Cursor::new(Vec::<u8>::new());
        proof.write(&mut d).unwrap();
        put(o.proof, base64::encode(d.get_ref()).into_bytes());
        put(o.inputs, base64::encode(&num_vec_to_buf(&list)).into_bytes());
    }
} }
macro_rules! borsh { () => {
    pub fn r_setup(o: SetupOpts) {
        let k = keys();
        let v = truncate_verifying_key(&k.vk).into_data().try_to_vec().unwrap();
        put(o.vk, base64::encode(&v).into_bytes());
        k.write(File::create(o.params).unwrap()).unwrap();
    }
    pub fn r_verify(o: VerifyOpts) {
        let vk = TruncatedVerifyingKey::<E>::from_data(&<_>::try_from_slice(&dec(o.vk)[..]).unwrap());
        let proof = Proof::<E>::from_data(&<_>::try_from_slice(&dec(o.proof)[..]).unwrap());
        let inputs: Vec<Num<Fr>> = <Vec<Num<Fr>>>::try_from_slice(&dec(o.inputs)[..]).unwrap();
        let inputs: Vec<Fr> = inputs.iter().map(|n| n.0).collect();
        say(match verify(&vk, &proof, &inputs) { Ok(b) => b, Err(_) => false });
    }
    pub fn r_prove(o: ProveOpts) {
        let k = params(&o);
        let (p, s) = object(&o);
        let c = circuit(p, s);
        let list = fawkes_crypto::core::cs::Circuit::get_inputs(&c).unwrap();
        let proof = prove(&c, &k);
        put(o.proof, base64::encode(&proof.into_data().try_to_vec().unwrap()).into_bytes());
        put(o.inputs, base64::encode(&list.try_to_vec().unwrap()).into_bytes());
    }
} }
// stand-ins for the circuit object of the module under test and its number coding
impl<P, S> Obj<P, S> { fn both(p: P, s: S) -> Self { Obj { p: Some(p), s: Some(s) } } }
macro_rules! circ { ($f:ty) => {
    impl fawkes_crypto::core::cs::Circuit for Obj<P, S> {
        type F = $f;
        fn synthesize<CS: ConstraintSystem<F = $f>>(&self, cs: &CS) { loop {} }
        fn get_inputs(&self) -> Option<Vec<Num<$f>>> { loop {} }
    }
    impl Default for Obj<P, S> { fn default() -> Self { loop {} } }
} }
pub mod rbn {
    use super::*;
    common!(pairing::bn256::Bn256, pairing::bn256::Fr, P1, S1, data1, bn);
    circ!(pairing::bn256::Fr);
    pub fn keys() -> Parameters<E> { generate_keys::<E, Obj<P, S>>() }
    fn circuit(p: P, s: S) -> Obj<P, S> { Obj::both(p, s) }
    pub mod eth { use super::*; text!(); }
    pub mod near { use super::*; borsh!(); }
    pub mod wav { use super::*; waves!(); }
}
pub mod rbls {
    use super::*;
    common!(pairing::bls12_381::Bls12, pairing::bls12_381::Fr, P2, S2, data2, bls);
    circ!(pairing::bls12_381::Fr);
    pub fn keys() -> Parameters<E> { generate_keys::<E, Obj<P, S>>() }
    fn circuit(p: P, s: S) -> Obj<P, S> { Obj::both(p, s) }
    pub mod wav { use super::*; waves!(); }
}
// number coding of the Waves bindings: fixed-size big-endian, canonical values only
pub fn r_read_num<Fr: Field>(data: &[u8]) -> Option<Num<Fr>> {
    let mut r = Fr::zero().into_raw_repr();
    if r.read_be(data).is_err() { return None; }
    match Fr::from_repr(r) { Ok(x) => Some(Num(x)), Err(_) => None }
}
pub fn r_read_num_vec<Fr: Field>(data: &[u8]) -> Option<Vec<Num<Fr>>> {
    let n = std::mem::size_of::<<Fr as PrimeField>::Repr>();
    if data.len() % n != 0 { return None; }
    let mut v = vec![];
    let mut i = 0;
    while i < data.len() {
        match r_read_num(&data[i..i + n]) { Some(x) => v.push(x), None => return None }
        i += n;
    }
    Some(v)
}
pub fn read_num_vec<Fr: Field>(data: &[u8]) -> Option<Vec<Num<Fr>>> { loop {} }
pub fn num_vec_to_buf<Fr: Field>(nums: &[Num<Fr>]) -> Vec<u8> { loop {} }
pub fn r_num_vec_to_buf<Fr: Field>(nums: &[Num<Fr>]) -> Vec<u8> {
    let mut out = vec![];
    for e in nums.iter() {
        let mut b = vec![];
        e.0.into_repr().write_be(&mut b).unwrap();
        out.extend(b);
    }
    out
}
