"""Which summaries decide which property.

Pair(subject, reference): two functions of the harness crate; the subject calls the code under analysis, the
reference spells out what it has to compute.  `insts` are size assignments used when the summaries for
symbolic sizes have no common normal form."""
import contracts as K

HASH = {'native::poseidon::poseidon': 'poseidon', 'circuit::poseidon::c_poseidon': 'poseidon',
        'native::num::Num::from_seed': 'from_seed', 'native::num::Num::into_other': 'into_other'}

class Pair:
    def __init__(self, s, r=None, layer='sem', extra=None, generic=False, insts=(), sized=False, sym=True, ignore=(), timeout=100, drop=(), kind='pair', care=None, bit=False, want=None, mode='sem', mirror=(), base=None, distinct=(), vary=None, probes=(), log=False):
        self.log = log
        self.s = s
        if r is None:
            m, f = s.rsplit('::', 1)
            r = m + '::r_' + f[2:]
        self.r, self.layer, self.extra, self.generic, self.insts = r, layer, extra, generic, list(insts)
        self.nbase = 10 ** 9
        self.sized = sized or bool(insts)
        self.sym, self.ignore, self.timeout, self.drop, self.kind, self.care, self.bit, self.want = sym, ignore, timeout, drop, kind, care, bit, want
        self.distinct = set(distinct)
        self.mode, self.mirror, self.base, self.vary, self.probes = mode, mirror, base, vary, probes
    @property
    def name(self): return self.s.replace('::s_', '::').replace('::p_', '::')

def many(mod, names, **kw): return [Pair('%s::s_%s' % (mod, n), **kw) for n in names.split()]

L = [{'USIZE:L': n} for n in (1, 2, 3)]
SIG = 'get_value from_const alloc switch assert_const assert_eq is_eq inputize linearize'

P = {}
def prim(names, **kw): return [Pair('prim::p_' + n, 'prim::p_' + n, kind='elim.gadget', **kw) for n in names.split()]
P['C01'] = prim('mul mul_assign mul_vv mul_rv mul_rr mul_assign_v square') + prim('div div_assign div_vv div_rv div_rr div_assign_v', care='arg1')
for _m in ('add', 'sub', 'cadd', 'csub', 'cmul', 'cdiv'):
    P['C01'] += [Pair('raw::%s::%s' % (_m, f), 'x', kind='raw.linop') for f in 'vv vr rv rr av ar'.split()]
for _m in ('ladd', 'lsub', 'lmul'):
    P['C01'] += [Pair('raw::%s::%s' % (_m, f), 'x', kind='raw.linop') for f in 'vv vr rv rr'.split()]
P['C01'] += [Pair('raw::neg::' + f, 'x', kind='raw.linop') for f in 'vr']
P['C01'] += [Pair('raw::view::' + f, 'x', kind='raw.view') for f in 'as_const get_value clone from_const from_var derive_var alloc'.split()]
P['C02'] = prim('assert_const assert_eq assert_zero assert_nonzero assert_bit is_zero is_eq switch')
P['C07'] = prim('inputize')
P['C05'] = (many('bits', 'into_bits', insts=[{'arg1': n, 'nbits': 8} for n in (1, 2, 3)], vary=[('arg1', 'nbits')]) +
            many('bits', 'from_bits', insts=[{'arg0.len': n} for n in (1, 2, 3, 5)]) +
            many('bits', 'strict', timeout=60) +
            many('bits', 'comp', insts=[{'arg0.len': n, 'nbits': 8} for n in (1, 2, 3, 4, 5)], vary=[('arg0.len', 'nbits')]) +
            many('bits', 'mux3', insts=[{'arg0.len': 3, 'arg1.len': n} for n in (1, 2)] + [{'arg0.len': k, 'arg1.len': 1} for k in (2, 4)] + [{'arg0.len': 3, 'arg1.len': 1, 'arg1.i0.len': k} for k in (7, 8, 9)]))
P['C06'] = (many('gadget', 'zero one derive_zero derive_one derive_const derive_alloc into_bool linearize b_from_const b_true b_false '
                 'b_get_value b_as_const b_switch b_if_else b_assert_const b_assert_eq b_is_eq b_assert_true b_assert_false b_assert '
                 'b_inputize b_into_num b_linearize') +
            many('composite::edw', SIG + ' as_const') + many('composite::mon', SIG + ' as_const') +
            many('composite::trip', SIG + ' as_const') + many('composite::ttrip', SIG + ' as_const') + many('composite::tup', SIG + ' as_const') +
            many('composite::tup1', SIG + ' as_const') +
            many('composite::named1', SIG + ' as_const') + many('composite::named12', SIG + ' as_const') + many('composite::pos9', SIG + ' as_const') +
            many('composite::tupv', 'get_value switch assert_eq is_eq inputize linearize', insts=L) +
            many('composite::vecs', SIG + ' as_const', insts=L) + many('composite::vecs', 'get_cs', insts=L, sym=False) + many('composite::merkle', SIG, insts=L))
P['C08'] = (many('necc', 'ex_add ex_double ex_neg add double montgomery', generic=True) +
            many('necc', 'ex_affine ex_zero ex_cofactor ex_eq ex_is_zero ex_in_curve ex_montgomery ex_in_subgroup cofactor zero is_zero in_curve '
                 'extended m_affine m_extended get_for_y decompress'))
P['C09'] = many('cecc', 'add double cofactor in_curve in_subgroup decompress montgomery m_edwards m_add m_double')
# special points at which a formula that is right in general may divide by zero
def _pt(a, x, y, ex): return {a + '.f0': x, a + '.f1': y, **({a + '.f2': 0, a + '.f3': 1} if ex else {})}
def _one(a, ex=False): return [_pt(a, 0, 1, ex), _pt(a, 0, -1, ex), {a + '.f1': 0, **({a + '.f2': 0} if ex else {})}]
def _two(ex=False):
    n = 4 if ex else 2
    same = {'arg1.f%d' % i: 'arg0.f%d' % i for i in range(n)}
    opp = dict(same, **{'arg1.f%d' % i: '-arg0.f%d' % i for i in ((0, 2) if ex else (0,))})
    return _one('arg0', ex) + _one('arg1', ex) + [same, opp]
for _p in P['C08'] + P['C09']:
    _f = _p.s.split('::s_')[1]
    if _f in ('ex_add', 'add', 'm_add'): _p.probes = _two(_f == 'ex_add')
    elif _f in ('ex_double', 'ex_neg', 'ex_cofactor'): _p.probes = _one('arg0', True)
    elif _f in ('double', 'cofactor', 'in_curve', 'in_subgroup', 'montgomery', 'm_edwards', 'm_double', 'm_affine'): _p.probes = _one('arg0')
    elif _f in ('decompress', 'get_for_y'): _p.probes = [{'arg0': 0}, {'arg0': 1}, {'arg0': -1}]
P['C10'] = (many('necc', 'ex_mul mul') + many('cecc', 'mul', insts=[{'arg1.len': n} for n in (1, 2, 3, 4)]))
P['C11'] = many('necc', 'from_scalar from_scalar_raw') + many('cecc', 'from_scalar', probes=[{'arg0': v} for v in (0, 1, -1)])
PI = [{'arg0.len': a, 'arg1.f2': t, 'arg1.f3': b, 'arg1.f4': c}
      for a, t, b, c in ((1, 3, 2, 1), (2, 3, 2, 2), (2, 3, 4, 3), (3, 3, 2, 1), (0, 3, 2, 1), (4, 3, 2, 1), (1, 1, 2, 1), (1, 2, 3, 2))]
PS = [{'arg0.len': a, 'arg2.f2': t, 'arg2.f3': 2, 'arg2.f4': 1} for a, t in ((2, 3), (0, 3), (3, 3), (1, 3))]
PV = dict(base=PI[0], vary=[('arg1.f2',), ('arg0.len', 'arg1.f2'), ('arg1.f3',), ('arg1.f4',)])      # when constants of the code name further sizes
P['C12'] = [Pair('hash::s_poseidon', insts=PI, sym=False, **PV), Pair('hash::s_c_poseidon', 'hash::r_poseidon', insts=PI, sym=False, **PV),
            Pair('hash::s_poseidon_salt', extra=HASH, insts=PS),
            Pair('hash::s_c_poseidon_salt', 'hash::r_poseidon_salt', extra=HASH, insts=PS)]
TI = [{'arg0.len': n} for n in (0, 1, 2, 3, 5)]
P['C13'] = [Pair('hash::s_proof_root', extra=HASH, insts=L), Pair('hash::s_c_proof_root', 'hash::r_proof_root', extra=HASH, insts=L),
            Pair('hash::s_tree_root', extra=HASH, insts=TI, log=True), Pair('hash::s_c_tree_root', 'hash::r_tree_root', extra=HASH, insts=TI, log=True)]
import group
P['C14'] = [Pair('hash::s_sign', extra=group.GROUP), Pair('hash::s_verify', extra=group.GROUP), Pair('hash::s_signed', extra=group.GROUP), Pair('hash::s_c_verify', extra={k: v for k, v in group.GROUP.items() if k.startswith('native::num::')})]
NAT = {k: v for k, v in K.G.items() if k not in K.NUM}
P['C25'] = [Pair('numc::%s::s_%s' % (o, f), layer=NAT) for o in ('add', 'sub', 'mul', 'div') for f in 'vv vr rv rr av ar'.split()]
P['C25'] += many('numc', 'neg_v neg_r double square inverse sqrt zero one minusone is_zero eq ne is_odd is_even into_inner new into_bool', layer=NAT)
F4 = [{'NUM_BITS:F': 254, 'nlimbs:F': 4, 'NUM_BITS:G': 255, 'nlimbs:G': 4}, {'NUM_BITS:F': 381, 'nlimbs:F': 6, 'NUM_BITS:G': 252, 'nlimbs:G': 4},
      {'NUM_BITS:F': 256, 'nlimbs:F': 4, 'NUM_BITS:G': 256, 'nlimbs:G': 4},
      {'NUM_BITS:F': 252, 'nlimbs:F': 4, 'NUM_BITS:G': 381, 'nlimbs:G': 6},
      {'NUM_BITS:F': 249, 'nlimbs:F': 4, 'NUM_BITS:G': 249, 'nlimbs:G': 4}]
def conv(names, want, **kw): return [Pair('numc::s_' + n, 'x', kind='ints.conv', want=want or n[5:], layer=NAT, insts=F4, sym=False, **kw) for n in names.split()]
P['C15'] = (conv('from_u64 from_u32 from_i64 from_i32 from_biguint from_bigint', None) + conv('into_biguint from_other into_other', 'repr') +
            conv('from_binary', 'beval') + conv('into_binary', 'bytes') +
            [Pair('numc::s_bits_' + x, 'x', kind='ints.conv', want='bits', layer=NAT, insts=[{'nlimbs:F': 2}, {'nlimbs:F': 4}], sym=False) for x in ('le', 'be')] +
            many('numc', 'from_bool into_bool from_str into_u64 to_string borsh_ser borsh_de serde_ser', layer=NAT) +
            many('numc', 'from_seed serde_de', layer=NAT, insts=F4[:1], sym=False))
P['C21'] = many('composite::vecs', 'from_iter', insts=[{'USIZE:L': n, 'arg0.len': k} for n in (0, 1, 2, 3) for k in (0, 1, 2, 3, 4)], base={'USIZE:L': 3, 'arg0.len': 3}, vary=[('USIZE:L', 'arg0.len'), ('USIZE:L', 'arg0.len+1')]) + many('composite::vecs', 'iter index iter_mut index_mut ser de', insts=L)

# shape and bit-ness reuse the circuit entries above with another question
import copy
def again(kind, prop, pred=lambda p: True, **kw):
    out = []
    for p in P[prop]:
        if p.kind not in ('pair', 'elim.gadget') or not pred(p): continue
        q = copy.copy(p)
        if p.kind == 'elim.gadget': q.layer = 'prim'
        q.kind, q.generic, q.ignore = kind, False, ()
        for k, v in kw.items(): setattr(q, k, v)
        out.append(q)
    return out
circ = lambda p: not p.s.startswith('necc::') and not p.s in ('hash::s_poseidon', 'hash::s_poseidon_salt', 'hash::s_proof_root', 'hash::s_tree_root', 'hash::s_sign', 'hash::s_verify', 'hash::s_signed')
P['C03'] = [q for c in ('C01', 'C02', 'C07', 'C05', 'C06', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14') for q in again('shape.shape', c, circ)]
P['C03'] = [q for q in P['C03'] if q.s.split('::')[1] not in ('named12', 'pos9')]      # up to 2^12 constant/variable cases; the arities 1 to 3 run the same generated code
P['C03'] += [Pair('prim::p_b_alloc', 'x', layer='prim', kind='shape.shape')]
_b = lambda names: lambda p: p.s.split('::s_')[-1].split('::p_')[-1] in names.split()
P['C04'] = (again('bitness.bit', 'C02', _b('is_zero is_eq')) + [Pair('prim::p_b_alloc', 'x', layer='prim', kind='bitness.bit')] +
            again('bitness.bit', 'C05', _b('into_bits comp')) + again('bitness.bit', 'C06', _b('b_switch b_is_eq b_from_const b_true b_false is_eq')) +
            [q for q in again('bitness.bit', 'C06', _b('alloc switch')) if q.s.split('::')[1] in ('tup', 'merkle')])
_ni = lambda p: circ(p) and 'inputize' not in p.s
P['C07'] += [copy.copy(p) for p in P['C06'] if 'inputize' in p.s]
P['C07'] += [q for c in ('C01', 'C02', 'C05', 'C06', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14') for q in again('shape.nopub', c, _ni)]
P['C07'] += [Pair('prim::p_b_alloc', 'x', layer='prim', kind='shape.nopub')]

# constants are folded
_hints = 'alloc derive_alloc inputize b_inputize b_alloc in_subgroup decompress from_scalar c_verify strict get_value as_const linearize get_cs b_get_value b_as_const b_linearize'
_nh = lambda p: circ(p) and not _b(_hints)(p)
P['C27'] = [q for c in ('C01', 'C02', 'C05', 'C06', 'C09', 'C10', 'C12', 'C13') for q in again('fold.fold', c, _nh)]
P['C27'] += [q for n in ('arg0', 'arg1') for q in again('fold.fold', 'C01', _b('mul mul_assign mul_vv mul_rv mul_rr mul_assign_v'), want=(n,))]
P['C27'] += again('fold.fold', 'C01', _b('div div_assign div_vv div_rv div_rr div_assign_v'), want=('arg1',))
P['C27'] += [Pair(p.s, 'x', kind='raw.linfold') for p in P['C01'] if p.kind == 'raw.linop']

# ---- groth16 helpers, randomness, parameters
import groth as GR
MP1, MP2 = ('helpers::groth16::G1PointData', 'groth::P1'), ('helpers::groth16::G2PointData', 'groth::P2')
MPD, MVD = ('helpers::groth16::prover::ProofData', 'groth::PD'), ('helpers::groth16::verifier::TruncatedVerifyingKeyData', 'groth::VD')
MIR = (MP1, MP2, MPD, MVD)
for _c in ('bn', 'bls'):
    P.setdefault('C16', []).extend(many('groth::' + _c, 'g1_into g2_into proof_from_data vk_from_data', mirror=MIR))
    P.setdefault('C17', []).extend(many('groth::' + _c, 'g1_from g2_from proof_into_data vk_into_data g1_into g2_into proof_from_data vk_from_data proof_write proof_read', mirror=MIR))
def vkread(): return [Pair('groth::s_vk_read', extra=GR.streams(n), insts=[{'bytes': n}], sym=False) for n in range(6)]
P['C16'] += vkread() + many('groth::bn', 'proof_read') + many('groth::bls', 'proof_read')
TRUNC = many('groth', 'truncate', mirror=MIR, insts=[{'arg0.f6.len': n} for n in (0, 1, 2, 3)], distinct={'CurveAffine::is_zero'})
P['C17'] += many('groth', 'g1_ser g1_de g2_ser g2_de proof_ser proof_de vk_ser vk_de', mirror=MIR) + TRUNC + many('groth', 'vk_write', mirror=MIR, distinct={'CurveAffine::is_zero', 'CurveProjective::is_zero'}, insts=[{'arg0.f4.len': n} for n in (0, 1, 2, 3)]) + vkread()
P['C18'] = [Pair('groth::s_verify', extra=GR.PAIR, sym=False, base={}, vary=[('arg2.len', 'arg0.f4.len+1')], insts=[{'arg0.f4.len': 'arg2.len+1'}, {'arg0.f4.len': 'arg2.len+2'}] +
                 [{'arg2.len': a, 'arg0.f4.len': b} for a, b in ((0, 1), (1, 2), (3, 4), (0, 0), (1, 1), (2, 1), (1, 3))])] + many('groth', 'truncate', insts=[{'arg0.f6.len': n} for n in (0, 1, 2, 3)], distinct={'CurveAffine::is_zero'})
P['C22'] = many('groth', 'test_new test_alloc test_alloc_input test_fresh test_notone test_enforce test_num g16_alloc g16_alloc_input g16_new', layer=K.NUM, extra=GR.BELL, mode='raw')
P['C22'] += many('groth', 'g16_enforce', layer=K.NUM, extra=GR.BELL, mode='raw', insts=[{'arg%d.f1.len' % i: n for i, n in zip((1, 2, 3), ns)} for ns in ((1, 1, 1), (0, 1, 2), (2, 3, 1), (3, 2, 3))])
P['C22'] += [Pair('@HelperCircuit<.* as bellman_ce::Circuit<BE>>::synthesize', '@param::HC<.* as bellman_ce::Circuit<BE>>::synthesize', layer=K.NUM, mode='raw')]
P['C19'] = many('param', 'gen_keys prove num_rand')
P['C19'] += [Pair('param::s_os_next', 'param::r_os_next|param::r_os_nextb', kind='pairs.override', want='-', extra=GR.OS),
             Pair('param::s_os_next64', 'param::r_os_next64a|param::r_os_next64b|param::r_os_next64c', kind='pairs.override', want='Rng::next_u64', extra=GR.OS),
             Pair('param::s_os_fill', kind='pairs.override', want='Rng::fill_bytes', extra=GR.OS)]
ONE_ = [{'bytes': 1}]
P['C20'] = (many('param', 'seed_new seed_salt seed_next', mirror=(('core::seedbox::SeedboxBlake2', 'param::SB'),)) + many('param', 'seed_stream seed_stream0', insts=ONE_, sym=False) +
            many('param', 'poseidon_params', insts=[{'arg0': a, 'arg1': b, 'arg2': c} for a, b, c in ((1, 1, 1), (2, 2, 1), (3, 2, 2))]) + many('param::bn', 'g') + many('param::bls', 'g'))

# ---- structural rules: rule(db) -> (sites, violations [(key, what)], undecided [(key, why)])
def index_layout(db):
    """back-end indices are converted by reinterpretation: both enums must list the same variants in the same order"""
    a, b = db.adts.get('fawkes_crypto::circuit::num::Index'), db.adts.get('bellman_ce::cs::Index')
    sites = [d for d, x in db.bodies.items() if d.startswith('fawkes_crypto::helpers::') and 'intrinsics::transmute' in str(x) and 'circuit::num::Index' in str(x)]
    if not sites: return 0, [], []
    if not a or not b: return len(sites), [], [('index layout', 'types not found')]
    va, vb = [[(v['n'], [f[1] for f in v['f']]) for v in x['v']] for x in (a, b)]
    if va == vb: return len(sites), [], []
    if sorted(map(str, va)) == sorted(map(str, vb)) or len(va) == len(vb):
        return len(sites), [('index layout', 'circuit::num::Index lists its variants as %s, bellman::Index as %s, and %d sites reinterpret one as the other' % (
            [x[0] for x in va], [x[0] for x in vb], len(sites)))], []
    return len(sites), [], [('index layout', 'variants changed')]
import curves
P['C26'] = many('param::bn', 'g') + many('param::bls', 'g')
RULES = {'C22': [index_layout], 'C26': [curves.curve_constants]}

import solidity
P['C23'] = [Pair('groth::s_sol', 'x', kind='solidity.check', mirror=MIR, sym=False, insts=[{'arg0.f4.len': k} for k in (1, 2, 3, 12, 260)], timeout=200)]

import bindings as BN
def _cli(m, r, fns):
    for f, ref, opts in fns:
        yield Pair('bindings::%s::cli_%s' % (m, f), 'bindings::%s::r_%s' % (r, ref), extra=BN.CLI, ignore=() if f == 'verify' else ('standard output',), mirror=(('harness::bindings::%s::%s' % (m, opts), 'bindings::' + opts),) + (
            (('harness::bindings::%s::CircuitObject' % m, 'bindings::Obj'),) if f == 'prove' else ()) + (
            (('fn', 'bindings::%s::read_num_vec' % m), ('fn', 'bindings::%s::num_vec_to_buf' % m)) if m[:3] == 'wav' else ()))
_four = [('setup', 'setup', 'SetupOpts'), ('verify', 'verify', 'VerifyOpts'), ('prove', 'prove', 'ProveOpts')]
P['C24'] = list(_cli('eth', 'rbn::eth', _four + [('generate_verifier', 'sol', 'GenerateVerifierOpts')])) + list(_cli('near', 'rbn::near', _four)) + \
    list(_cli('wavbn', 'rbn::wav', _four)) + list(_cli('wav', 'rbls::wav', _four))
for _m, _r in (('eth', 'rbn'), ('near', 'rbn'), ('wavbn', 'rbn'), ('wav', 'rbls')):
    P['C24'] += _cli(_m, _r, [('generate_test_data', 'gen', 'GenerateTestDataOpts')])
    _o = (('harness::bindings::%s::CircuitObject' % _m, 'bindings::Obj'),)
    P['C24'] += [Pair('@bindings::%s::CircuitObject as .*Circuit>::synthesize' % _m, 'bindings::r_synth', mirror=_o),
                 Pair('@bindings::%s::CircuitObject as .*Circuit>::get_inputs' % _m, 'bindings::r_inputs', mirror=_o, layer='none', mode='raw', extra=BN.VALUES),
                 Pair('@bindings::%s::CircuitObject as .*Default>::default' % _m, 'bindings::r_default', mirror=_o)]
for _m in ('wav', 'wavbn', 'near'):
    if _m != 'near': P['C24'] += [Pair('bindings::%s::read_num' % _m, 'bindings::r_read_num', extra=BN.CODE, sym=False, insts=[{'arg0.len': n} for n in range(5)]),
                 Pair('bindings::%s::read_num_vec' % _m, 'bindings::r_read_num_vec', extra=BN.CODE, sym=False, insts=[{'arg0.len': n} for n in range(8)])]
    P['C24'] += [Pair('bindings::%s::num_vec_to_buf' % _m, 'bindings::r_num_vec_to_buf', extra=BN.CODE, sym=False, insts=[{'arg0.len': n} for n in range(4)])]
RULES['C24'] = [BN.options]
