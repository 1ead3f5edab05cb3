"""Native curve points abstracted to elements of the group (established by the C08/C10 checks): a point is a
term, addition is +, scalar multiplication is *, and its coordinates are projections of that term."""
from terms import *
import terms as TM
from engine import *
import contracts
from models import byval

PT = 'fawkes_crypto::native::ecc::EdwardsPoint'
EX = 'fawkes_crypto::native::ecc::EdwardsPointEx'

def mkpt(t, tag=PT):
    if tag == PT: return Agg(PT, [lift(lambda y: rawapp('fld', y, 0), t), lift(lambda y: rawapp('fld', y, 1), t)])
    return Agg(EX, [lift(lambda y, i=i: rawapp('ex', y, i), t) for i in range(4)])

def unpt(v):
    """group term of a point value"""
    if isinstance(v, T): return v
    if isinstance(v, Ite): return lift(unpt, v)
    if isinstance(v, Agg):
        while len(v.fs) == 1 and isinstance(v.fs[0], Agg): v = v.fs[0]
        n = 'ex' if len(v.fs) == 4 else 'fld'
        def base(f, i):
            f = f.fs[0] if isinstance(f, Agg) and len(f.fs) == 1 else f
            return lift(lambda y: y.args[1] if y.op == 'app' and y.args[0] == n and y.args[2] == i else sp('?'), f)
        bs = [base(f, i) for i, f in enumerate(v.fs)]
        if all(b.v == bs[0].v for b in bs) and not (isinstance(bs[0], T) and bs[0].op == 'sp' and bs[0].args[0] == '?'): return bs[0]
        return rawapp('pt%d' % len(v.fs), *v.fs)
    raise Unsup('not a point')

def P_(c, i): return unpt(byval(c, i))
def S_(c, i): return contracts.cn(c, i)[0]
def typ(c): return EX if 'EdwardsPointEx::' in c.body['p'] or 'EdwardsPointEx<' in c.body['p'] else PT

def spanned(t):
    """is t a multiple of the generator?"""
    if not isinstance(t, T): return False
    p = poly(t)
    for m in p:
        g = [TM._TT[a] for a in m]
        if sum(1 for x in g if 'edwards_g' in show(x, 3)) != 1: return False
    return True

def _decompress(c):
    x = S_(c, 0)
    def f(x):
        if x.op == 'app' and x.args[0] == 'fld' and x.args[2] == 0 and spanned(x.args[1]): return some(mkpt(x.args[1]))
        return En(OPT, ite(bvar(rawapp('decompresses', x)), ONE, ZERO), {0: (), 1: (mkpt(rawapp('decompress', x)),)})
    return lift(f, x)
def _eq(c): return eq0(sub(P_(c, 0), P_(c, 1)))
def _ne(c): return bnot(_eq(c))
GROUP = {'native::ecc::EdwardsPoint::subgroup_decompress': _decompress}
for _t in ('EdwardsPoint', 'EdwardsPointEx'):
    tag = PT if _t == 'EdwardsPoint' else EX
    b = 'native::ecc::%s::' % _t
    GROUP[b + 'mul'] = lambda c, tag=tag: mkpt(mul(S_(c, 1), P_(c, 0)), tag)
    GROUP[b + 'add'] = lambda c, tag=tag: mkpt(add(P_(c, 0), P_(c, 1)), tag)
    GROUP[b + 'double'] = lambda c, tag=tag: mkpt(add(P_(c, 0), P_(c, 0)), tag)
    GROUP[b + 'negate'] = lambda c, tag=tag: mkpt(neg(P_(c, 0)), tag)
    GROUP[b + 'mul_by_cofactor'] = lambda c, tag=tag: mkpt(mul(const(8), P_(c, 0)), tag)
    GROUP[b + 'zero'] = lambda c, tag=tag: mkpt(ZERO, tag)
    GROUP[b + 'is_zero'] = lambda c: eq0(P_(c, 0))
    GROUP[b + 'is_in_subgroup'] = lambda c: bvar(rawapp('in_subgroup', P_(c, 0)))
    GROUP[b + 'is_in_curve'] = lambda c: bvar(rawapp('in_curve', P_(c, 0)))
    GROUP['PartialEq::eq@' + _t] = _eq
    GROUP['PartialEq::ne@' + _t] = _ne
GROUP['native::ecc::EdwardsPoint::into_extended'] = lambda c: mkpt(P_(c, 0), EX)
GROUP['native::ecc::EdwardsPointEx::into_affine'] = lambda c: mkpt(P_(c, 0), PT)
GROUP.update({'native::poseidon::poseidon': 'poseidon', 'native::num::Num::from_seed': 'from_seed',
              'native::num::Num::into_other': 'into_other', 'native::num::Num::into_binary_be': 'into_binary_be', 'native::num::Num::from_binary_be': 'from_binary_be'})
