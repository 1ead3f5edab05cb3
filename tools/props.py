#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = []
def P(id, title, statement, over, text, why, files, mech, note, na=None):
    PR.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files.split(), mech=mech, note=note, na=na))
I, C, G = 'inputs', 'configurations', 'programs'

P('C01', 'Circuit arithmetic equals field arithmetic and binds its result',
  'For every mix of constant and allocated circuit numbers, the sum, difference, product, quotient, square and negation of circuit numbers are exactly the field results, whatever operator form (by value, by reference, in place, with a native constant) is used, and terms that cancel in a linear operation disappear from the linear combination. Every result the operation allocates is tied to its operands by the emitted constraints so that no other value satisfies them (for division: whenever the divisor is nonzero), and the honest witness satisfies them.',
  [I, G], 'all operand values, all constant/allocated mixes of the operands, all operator forms', 'the tests multiply a few random witnesses with honest values; they never try a dishonest witness and reach two or three operand mixes',
  'src/circuit/num.rs', [('multiplication, division, square of circuit numbers', 'src/circuit/num.rs MulAssign, DivAssign, CNum::square'), ('linear operators', 'src/circuit/num.rs AddAssign, SubAssign, Neg')],
  'constraint effects of each operator are summarised by abstract interpretation; the allocated wires are eliminated from the recorded equations and result and acceptance are compared with the field operation, for all values and all constant/allocated mixes')
P('C02', 'Assertion and predicate gadgets accept exactly what they claim',
  'Asserting equality, equality with a constant, zero, nonzero or bit-ness of a circuit number is satisfiable exactly when the claim is true, and constants that falsify the claim are rejected at synthesis. Zero tests and equality tests return a bit that is 1 exactly when the claim is true and is the only value the constraints admit; selecting between two numbers by a bit returns exactly the selected number.',
  [I, G], 'all values of the operands (honest or dishonest witnesses), all constant/allocated mixes', 'tests use honest witnesses: a missing constraint never fails an honest run',
  'src/circuit/num.rs src/circuit/bool.rs', [('assertions', 'src/circuit/num.rs assert_zero, assert_nonzero, assert_bit, assert_const, assert_eq'), ('predicates and switch', 'src/circuit/num.rs is_zero, is_eq, switch')],
  'as C01: acceptance condition and result after wire elimination are compared with the stated predicate')
P('C03', 'Circuit shape never depends on witness values',
  'The sequence of allocations, public inputs and constraints a gadget emits depends only on constants, parameters and sizes: it is the same whether the witness is known or absent and whatever the witness values are. Keys generated without a witness therefore fit every proof made with one.',
  [I, G], 'all gadgets and operators, all witness values including the absent witness', 'tests synthesise with one witness and never compare with another or with none',
  'src/circuit/num.rs src/circuit/bitify.rs src/circuit/ecc.rs src/circuit/mux.rs src/circuit/poseidon.rs src/circuit/eddsaposeidon.rs src/core/signal.rs src/core/sizedvec.rs', [('witness view', 'src/core/signal.rs get_value'), ('gadgets', 'src/circuit/')],
  'information-flow rule over the same summaries: the guard and the multiplicity of every recorded effect may depend on constants and sizes only')
P('C04', 'Every boolean signal handed out is constrained to 0 or 1',
  'Whenever the library itself produces a boolean signal that is not a constant, from an allocation, a predicate, a bit decomposition or a comparison, the emitted constraints admit only 0 and 1 for it. Selecting between two booleans keeps this.',
  [I, G], 'all producers of boolean signals, all (dishonest) witness values', 'an unconstrained boolean passes every honest test',
  'src/circuit/bool.rs src/circuit/num.rs src/circuit/bitify.rs', [('boolean allocation', 'src/circuit/bool.rs Signal::alloc'), ('predicates', 'src/circuit/num.rs is_zero, is_eq'), ('bits', 'src/circuit/bitify.rs')],
  'wire elimination on every producer: the set of values the equations admit for the produced signal is compared with {0,1}; every construction site of a boolean signal in the crate is enumerated')
P('C05', 'Bit decomposition, comparison and selection gadgets are exact',
  'Decomposing a circuit number yields boolean signals whose weighted sum equals the number, low bit first and of the requested length; the strict form admits only the canonical representative below the modulus; recomposition is the weighted sum of the given bits. Comparing a bit string with a constant yields 1 exactly when the string is greater, and the 3-bit selector returns exactly the table entry with that index.',
  [I, C], 'all numbers, bit lengths, constants and tables', 'tests decompose a handful of random honest values with fixed lengths and a single constant',
  'src/circuit/bitify.rs src/circuit/mux.rs', [('decomposition', 'src/circuit/bitify.rs c_into_bits_le, c_into_bits_le_strict'), ('comparator', 'src/circuit/bitify.rs c_comp_constant'), ('selector', 'src/circuit/mux.rs c_mux3')],
  'summary of each gadget compared with a reference summary, for symbolic sizes where a normal form exists, else at several constant sizes for all values')
P('C06', 'Compound signals behave component by component',
  'Allocation, constants, value and constant views, selection, equality, equality tests, publication and flattening of compound signals (booleans, points, Merkle proofs, tuples, fixed-length vectors, derived structures) act on every component, in order, and on nothing else. A component is never skipped, swapped or duplicated, and equality of compounds is the conjunction over all components.',
  [I, G, C], 'all compound signal types, all component values, all lengths', 'tests touch a few of the compound operations on honest values; none checks that each component is constrained',
  'src/core/signal.rs src/core/sizedvec.rs src/circuit/bool.rs src/circuit/ecc.rs src/circuit/poseidon.rs fawkes-crypto_derive/src/signal.rs', [('derived signals', 'fawkes-crypto_derive/src/signal.rs'), ('tuples', 'src/core/signal.rs'), ('vectors', 'src/core/sizedvec.rs')],
  'summary of every operation for every compound type compared with the component-wise reference, for symbolic lengths')
P('C07', 'Published signals are bound to the public inputs, once each, in order',
  'Publishing a signal appends exactly one public input per scalar component, in component order, and constrains it to equal that component, for constant and for allocated signals alike. No other operation of the library adds a public input.',
  [I, G], 'all signals (constant or allocated), all histories of publications, all (dishonest) witness values', 'tests publish one or two honest allocated signals; an unbound public input still verifies',
  'src/circuit/num.rs src/core/signal.rs src/core/cs.rs', [('publication', 'src/circuit/num.rs inputize')],
  'public-input effects of every operation of the library are recorded; after elimination of the fresh input wire the binding equation is compared with value equality')
P('C08', 'Native curve arithmetic implements the Edwards and Montgomery group law',
  'Adding, doubling, negating and clearing the cofactor of native points gives exactly what the twisted Edwards (respectively Montgomery) group law prescribes in every representation, and converting between affine, extended and Montgomery form preserves the point. The identity, curve-membership and subgroup tests, and point recovery from one coordinate, answer exactly per their definition for every input.',
  [I], 'all points and coordinates, all valid curve parameters', 'tests compare random points on one curve; special points and representation mixes (projective scale, identity, zero coordinates) are not reached',
  'src/native/ecc.rs', [('extended coordinates', 'src/native/ecc.rs EdwardsPointEx'), ('affine and Montgomery', 'src/native/ecc.rs EdwardsPoint, MontgomeryPoint')],
  'rational-function value numbering of each operation compared with the textbook formula; equality holds for all inputs outside the zero sets of denominators, which are compared separately where both sides define them')
P('C09', 'Circuit point operations match the group law and the native results',
  'Circuit point addition, doubling, cofactor clearing and conversions return exactly the group-law result of their inputs, and the on-curve and in-subgroup assertions and decompression accept exactly the points that satisfy them. A dishonest witness cannot make them return another point.',
  [I, G], 'all points, honest and dishonest witnesses', 'tests run honest random points of one curve only',
  'src/circuit/ecc.rs', [('Edwards points in circuit', 'src/circuit/ecc.rs CEdwardsPoint'), ('Montgomery points in circuit', 'src/circuit/ecc.rs CMontgomeryPoint')],
  'summary (result, constraints, allocations) compared with the reference formula over the gadget contracts that C01/C02 establish')
P('C10', 'Scalar multiplication is the sum prescribed by the scalar bits',
  'Multiplying a point by a scalar, natively or in circuit, returns the sum of the doublings selected by the bits of the scalar, for every scalar and bit length including zero, one and odd lengths. The circuit result equals the native result for the same bits and admits no other point.',
  [I, C], 'all points, scalars and bit lengths', 'tests use a few random scalars of full length',
  'src/native/ecc.rs src/circuit/ecc.rs', [('native ladder', 'src/native/ecc.rs EdwardsPointEx::mul'), ('circuit ladder with table windows', 'src/circuit/ecc.rs CEdwardsPoint::mul')],
  'loops are summarised as folds; fold bodies, initial values and bit order are compared with the reference')
P('C11', 'Hash-to-curve is the prescribed map and agrees between native and circuit',
  'Mapping a field element to a curve point follows the prescribed formula: it chooses the branch by quadratic residuosity and clears the cofactor. The circuit version constrains exactly the same relation, including the square-root choice, so both yield the same point.',
  [I], 'all field elements', 'tests map a few random elements and compare native with circuit on honest witnesses',
  'src/native/ecc.rs src/circuit/ecc.rs', [('native map', 'src/native/ecc.rs from_scalar, from_scalar_raw'), ('circuit map', 'src/circuit/ecc.rs from_scalar')],
  'summary compared with the reference map')
P('C12', 'The Poseidon hash is the prescribed permutation, natively and in circuit',
  'The hash absorbs every input in order into the state, applies the full, partial and full rounds with each round constant, the fifth-power S-box on the right positions and the full matrix, and returns the first state element; no inputs and too many inputs are rejected. Native and circuit versions compute the same function, and salting is domain separation by the seed-derived extra input.',
  [I, C], 'all inputs, all parameter sets (width and round numbers)', 'tests compare native with circuit for one width on random inputs, so an error shared by both or specific to a round is invisible',
  'src/native/poseidon.rs src/circuit/poseidon.rs', [('permutation', 'src/native/poseidon.rs poseidon'), ('circuit permutation', 'src/circuit/poseidon.rs c_poseidon')],
  'summary compared with a reference permutation at several constant widths and round numbers, for all inputs, constants and matrices')
P('C13', 'Merkle roots: path order, padding and native/circuit agreement',
  'The root recomputed from a leaf and a proof hashes at each level the current node with its sibling in the order the path bit prescribes; the tree root is the balanced hash of all leaves with default padding. Native and circuit versions give the same root for every leaf, proof and tree size.',
  [I, C], 'all leaves, siblings, path bits, depths and leaf counts', 'tests use one depth and honest random proofs',
  'src/native/poseidon.rs src/circuit/poseidon.rs', [('proof root', 'src/native/poseidon.rs poseidon_merkle_proof_root'), ('tree root', 'src/native/poseidon.rs poseidon_merkle_tree_root')],
  'summaries with the hash as an uninterpreted function, for symbolic depth and size')
P('C14', 'Signatures made by the signer are the ones both verifiers accept',
  'Verification of a signature evaluates exactly the Schnorr equation on the signature, key and message with both points decompressed in the subgroup, natively and in circuit, and every signature made by the signer satisfies it; the signer\'s nonce is the personalized hash of the secret key followed by the message. Inputs that do not decompress are rejected.',
  [I], 'all keys, messages and signature candidates', 'tests sign and verify a few random messages',
  'src/native/eddsaposeidon.rs src/circuit/eddsaposeidon.rs', [('sign/verify', 'src/native/eddsaposeidon.rs'), ('circuit verify', 'src/circuit/eddsaposeidon.rs')],
  'summaries over point-group contracts')
P('C15', 'Field element encodings and conversions are canonical and faithful',
  'Converting field elements from and to booleans, machine integers, big integers, strings, bytes and bits preserves the value modulo the field order; out-of-range byte encodings are rejected on reading, and what is written is read back. Converting between two fields reduces the canonical integer.',
  [I], 'all field elements, integers and byte strings', 'tests read and write a few values',
  'src/native/num.rs', [('conversions', 'src/native/num.rs From, FromStr, Serialize')], 'summary comparison and encode/decode duality')
P('C16', 'Imported curve points are validated',
  'Converting coordinates into a G1 or G2 point, alone or as part of a proof or verifying key, is refused (panic) unless the coordinates are (0, 0), which stands for the point at infinity, or satisfy the equation of that curve; for G2, and for G1 of BLS12-381, also unless the point lies in the prime-order subgroup. Reading a proof or verifying key from bytes uses the checked point decoding throughout and rejects points at infinity in a verifying key.',
  [I], 'all coordinate tuples and byte strings', 'tests import honest points only',
  'src/helpers/groth16/mod.rs src/helpers/groth16/prover.rs src/helpers/groth16/verifier.rs', [('coordinate import', 'src/helpers/groth16/mod.rs From<G1PointData>, From<G2PointData>, is_on_curve'), ('key reader', 'src/helpers/groth16/verifier.rs TruncatedVerifyingKey::read')], 'summary comparison with curve constants evaluated')
P('C17', 'Serialized proofs and keys read back to the same object',
  'For points, proofs and verifying keys, the coordinate form and the binary forms (Borsh and compressed) hold every field of the object in one fixed order, and the reader consumes exactly what the writer produced and returns the same object: alpha, beta, gamma, delta and all the input points keep their places, and the coordinates of the quadratic extension keep their order. Converting a key or proof to data and back gives the same object. Truncated or malformed streams give an error rather than a different object.',
  [I], 'all objects and byte streams', 'the tests hardly cover serialization', 'src/helpers/groth16/mod.rs src/helpers/groth16/verifier.rs src/helpers/groth16/prover.rs src/helpers/groth16/near.rs', [('verifier formats', 'src/helpers/groth16/verifier.rs'), ('prover formats', 'src/helpers/groth16/prover.rs'), ('Borsh formats', 'src/helpers/groth16/near.rs')], 'summaries of writers and readers compared with one format description')
P('C18', 'Groth16 verification evaluates the verification equation on all inputs',
  'The native verifier returns true exactly when the Groth16 pairing equation holds for the given proof, key and all public inputs, each weighted with its own key element; a number of inputs that does not fit the key gives an error. Truncating a full verifying key keeps each element the equation needs.',
  [I], 'all proofs, keys and inputs', 'tests verify a single honest proof', 'src/helpers/groth16/verifier.rs', [('verify', 'src/helpers/groth16/verifier.rs verify'), ('truncation', 'src/helpers/groth16/verifier.rs truncate_verifying_key')], 'summary with group elements as exponents')
P('C19', 'Secret randomness comes only from the operating system generator',
  'Groth16 key generation and proving give the proof system randomness from the operating system generator only, fresh for each call; no deterministic, seeded or constant generator reaches them. The generator returns exactly the bytes the operating system delivered, every byte of them, and aborts when the operating system fails. A random field element is drawn uniformly by the field sampler from the given generator.',
  [G], 'all calls', 'a test cannot observe the entropy source', 'src/core/osrng.rs src/helpers/groth16/prover.rs src/native/num.rs', [('OS rng', 'src/core/osrng.rs'), ('users', 'src/helpers/groth16/prover.rs generate_keys, prove')], 'summary comparison with the operating system and the proof system as named externals')
P('C20', 'Derived parameters are a deterministic function of the seed',
  'The seed stream is a fixed function of the salt: the words are the consecutive little-endian 32-bit words of the hashes of salt and block counter, each word is used once, in order. Poseidon round constants and the matrix are drawn from the stream salted with the parameter description (width, full and partial rounds), first the round constants, then the matrix row by row, and the generator of each curve is the prescribed map of the field element derived from the generator seed. The same seed always gives the same parameters.',
  [I, C], 'all seeds and parameter sets', 'tests compare the parameters only with themselves', 'src/core/seedbox.rs src/native/poseidon.rs src/native/ecc.rs', [('seed stream', 'src/core/seedbox.rs SeedboxBlake2'), ('Poseidon parameters', 'src/native/poseidon.rs PoseidonParams::new_with_salt')], 'summary comparison')
P('C21', 'Fixed-length vectors always hold exactly their declared length',
  'A fixed-length vector obtained from an iterator, from deserialization or from any other operation of the library holds exactly the declared number of elements, in order; any other count is rejected. Access by index and iteration return the elements in place.',
  [I, C], 'all lengths, element types and input streams', 'tests only build vectors with the right length', 'src/core/sizedvec.rs src/core/signal.rs', [('construction and decoding', 'src/core/sizedvec.rs')], 'summary comparison plus enumeration of construction sites')
P('C22', 'Constraint-system back ends record and check exactly what gadgets emit',
  'The debugging back end gives every allocation and public input an index of its own and of the right kind, records its value, and rejects a constraint (panic) exactly when all three values are known and the product of the first two differs from the third. The prover back end passes every allocation, public input and constraint to the proof system unchanged: the right kind of variable with the given value, and for each of the three linear combinations all the terms with their coefficients and variables; missing values are reported as missing. The counters of both back ends say how many public inputs (with the constant one), auxiliary variables and constraints there are. The circuit given to the proof system synthesizes the user circuit once on that back end, with the constant one as variable zero.',
  [I, G], 'all circuits and witnesses', 'tests only run honest circuits', 'src/core/cs.rs src/helpers/groth16/mod.rs src/helpers/groth16/prover.rs', [('test back end', 'src/core/cs.rs TestCS'), ('prover back end', 'src/helpers/groth16/mod.rs Groth16CS'), ('circuit adaptor', 'src/helpers/groth16/prover.rs HelperCircuit')], 'summary comparison plus a layout rule for reinterpreted indices')
P('C23', 'The generated Solidity verifier checks the same equation',
  'For every verifying key, the generated contract accepts a proof exactly when all proof coordinates are below the base field order, all public inputs are below the scalar field order, and the Groth16 pairing equation of that key holds on the proof and all the public inputs, each weighted with its own key point; every key coordinate is embedded at the right place and in the order the Ethereum precompiles expect, and the result of every precompile call is checked.',
  [I, C], 'all keys, numbers of inputs, proofs and inputs', 'no test runs the contract', 'src/helpers/groth16/ethereum.rs', [('generator and template', 'src/helpers/groth16/ethereum.rs generate_sol_data')], 'the generator is evaluated to a text with holes, the text parsed and evaluated symbolically, the acceptance condition compared')
P('C24', 'Generated command-line tools prove, publish and verify consistently',
  'In the tools generated by the Ethereum, Waves and NEAR binding macros the circuit object allocates the public and the secret part, runs the given circuit on both and publishes every component of the public part, and the public input list it reports is exactly those components in the published order. Setup writes the parameters it generated and the encoded truncated key of the same parameters; prove writes the encoded proof of the given object under the given parameters and that object\'s inputs; verify decodes key, proof and inputs from the named files and prints true exactly when the library verifier accepts them, false also on errors; what one command writes by default is what the next one reads by default. The Waves number coding is fixed-size big-endian, accepts canonical values only, and reads back what it wrote.',
  [C, I], 'every circuit object, key, proof, input list and file content (the macros instantiated for a representative circuit)', 'no test instantiates the macros', 'src/macros.rs groth16_ethereum_bindings groth16_waves_bindings groth16_waves_bindings_bn256 groth16_near_bindings', [('binding macros', 'src/macros.rs groth16_*_bindings')], 'the expanded macros compared with reference functions; files and standard output are state')
P('C25', 'Native field operators agree in every form',
  'All forms of the native field operators (by value, by reference, in place) compute the field operation; inversion and square root are exact and report absence; comparison and parity follow the canonical integer.',
  [I], 'all field elements', 'tests reach a few forms', 'src/native/num.rs src/macros.rs', [('operators', 'src/native/num.rs')], 'summary comparison')
P('C26', 'Curve parameters are mutually consistent',
  'For both built-in curves the parameters satisfy the relations the formulas assume: the Edwards coefficient is a non-square, the Montgomery coefficients describe the same curve, the constant of the map to the curve is a non-square, the curve has exactly eight times as many points as the scalar field Fs has elements and that order is prime, the generator is a point of exactly that prime order, derived from its seed, and the declared generator of Fs is a non-square (so that square roots in Fs exist as computed).',
  [C], 'both parameter sets, for every point and scalar used with them', 'tests use the parameters without checking the relations', 'src/native/bn256.rs src/native/bls12_381.rs src/native/ecc.rs', [('parameters', 'src/native/bn256.rs JubJubBN256::new, Fs'), ('parameters', 'src/native/bls12_381.rs JubJubBLS12_381::new, Fs')], 'evaluation of the defining constant expressions and exact number theory on the values')
P('C27', 'Constants are folded: operations on constants add nothing to the circuit',
  'When all operands of a circuit operation are constants, the result is a constant and no variable or constraint is added; this holds for arithmetic, assertions, zero and equality tests, selection, bit decomposition and recomposition, comparison with a constant, table selection, point addition, doubling, cofactor clearing, conversion and scalar multiplication, hashing and Merkle roots, and componentwise for compound signals. Linear operations (sum, difference, negation, multiplication by a number) never add a variable or constraint, and neither does multiplying or dividing by a constant signal. (Operations that need a hint are exempt: allocation, publication, subgroup tests, decompression, the map to the curve, strict decomposition.)',
  [I, C], 'all constants and parameters; sizes where noted', 'tests check values, not what is emitted for constants', 'src/circuit/num.rs src/circuit/bool.rs src/circuit/bitify.rs src/circuit/mux.rs src/circuit/ecc.rs src/circuit/poseidon.rs src/core/signal.rs', [('constant branches', 'src/circuit/num.rs CNum operators'), ('gadgets', 'src/circuit/*.rs')], 'effects left when the constness conditions of the operands are assumed must be none; constness of the result must follow')
P('C28', 'Hash, signature and proof are cryptographically hard to break',
  'No efficient attacker finds two inputs with the same Poseidon hash, forges a signature without the key, computes discrete logarithms on the built-in curves, or makes an accepted proof of a false statement.',
  [I], 'all efficient attackers', 'tests run no attacker', 'src/native/poseidon.rs src/native/eddsaposeidon.rs src/helpers/groth16/verifier.rs', [('hash', 'src/native/poseidon.rs'), ('signature', 'src/native/eddsaposeidon.rs')], '', na='computational hardness is a conjecture about algorithms, not a fact of the source: no static rule can decide it (that the code computes the prescribed functions is C08-C18)')

CLAIM = os.environ.get('CLAIM', open(os.path.join(V, 'tools', 'claimed.txt')).read()).split()
NA = {}
try: NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
except OSError: pass
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PR:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/dump.py', 'checks': [], 'not_applicable': [],
     'notes': 'All checks: python3 sa/run.py <id>. No hooks in /repo are needed: the analysis reads the type-checked program through a compiler driver.'}
for p in PR:
    if p['id'] in CLAIM:
        assert len(p['title']) <= 80
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 sa/run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 sa/run.py %s --tier thorough' % p['id'],
            'technique': 'abstract interpretation of the compiler-checked program (THIR) into value-numbered effect summaries' , 'level': 'other', 'level_note': p['note']})
    else: m['not_applicable'].append({'property': p['id'], 'reason': NA.get(p['id']) or p['na'] or 'no static decision built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
