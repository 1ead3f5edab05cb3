"""Layer contracts: what a layer below guarantees to the layer above.

RAW   - constraint-system primitives; linear combinations are explicit lists.
PRIM  - (L1b) ring operators of circuit numbers abstracted to field operations (established by the
        RAW checks), allocation gives a named wire, enforce records an equation.
GADGET- (L2) every primitive gadget abstracted to its meaning (established by the PRIM checks).
"""
from terms import *
import terms as TM
from engine import *
import engine as EG
from models import byval, selfv, target

def cn(c, i):
    """circuit number / native number / bool behind argument i -> (scalar, K)"""
    v = byval(c, i)
    t = peel(c.argtys[i]) if c.argtys[i] else None
    if t is not None: v = c.eng.coerce(v, t)
    return sk(v)
def sk(v):
    if isinstance(v, Agg) and v.tag == 'CNum': return v.fs[0], v.fs[1]
    if isinstance(v, Agg) and len(v.fs) == 1: return sk(v.fs[0])
    if isinstance(v, (T, Ite)): return v, TRUE
    raise Unsup('not a number: %s' % show(v)[:100])

def nozero_inv(b): return inv(b)

def binop(f):
    def g(c):
        (a, ka), (b, kb) = cn(c, 0), cn(c, 1)
        return mkcnum(f(a, b), band(ka, kb))
    return g
def assignop(f):
    def g(c):
        (a, ka), (b, kb) = cn(c, 0), cn(c, 1)
        c.eng.wr(c.st, target(c, 0), mkcnum(f(a, b), band(ka, kb)))
        return UNIT
    return g

RING = {}
for tr, nm, f in (('Add', 'add', add), ('Sub', 'sub', sub)):
    for x in ('CNum,CNum', 'CNum,Num', 'Num,CNum'): RING['%s::%s@%s' % (tr, nm, x)] = binop(f)
    for x in ('CNum,CNum', 'CNum,Num'): RING['%sAssign::%s_assign@%s' % (tr, nm, x)] = assignop(f)
for tr, nm, f in (('Mul', 'mul', mul), ('Div', 'div', div)):
    RING['%s::%s@CNum,Num' % (tr, nm)] = binop(f)
    RING['%sAssign::%s_assign@CNum,Num' % (tr, nm)] = assignop(f)
RING['Mul::mul@Num,CNum'] = binop(mul)
def _neg(c):
    a, k = cn(c, 0)
    return mkcnum(neg(a), k)
RING['Neg::neg@CNum'] = _neg
def _getvalue(c):
    a, k = cn(c, 0)
    return option(bor(c.eng.W, k), a)
def _asconst(c):
    a, k = cn(c, 0)
    return option(k, a)
def _fromconst(c):
    a, k = cn(c, 1)
    return mkcnum(a, TRUE)
def _fromvar(c):
    v = byval(c, 2)
    if isinstance(v, (T, Ite)): return mkcnum(lift(lambda x: x if x.op == 'app' and x.args[0] in ('wire', 'input') else app('W', x), v), FALSE)
    raise Unsup('from_var of %s' % show(v)[:80])
def _capacity(c):
    a, k = cn(c, 0)
    return app('capacity', a)
def _cseq(c):
    return mkref(memloc(sp('cs'), ('par', 'CS')))
RING['Signal::get_value@CNum'] = _getvalue
RING['Signal::as_const@CNum'] = _asconst
RING['Signal::from_const@CNum'] = _fromconst
RING['circuit::num::CNum::from_var'] = _fromvar
RING['circuit::num::CNum::capacity'] = _capacity
RING['Signal::get_cs@CNum'] = _cseq
RING['Clone::clone@CNum'] = lambda c: byval(c, 0)

def wire(c, kind, v):
    """new wire whose witness is option v"""
    e, st = c.eng, c.st
    if isinstance(v, (T,)) and c.argtys[1] is not None: v = e.coerce(v, c.argtys[1])
    if not isinstance(v, En): raise Unsup('witness %s' % show(v)[:80])
    hint = v.pay[1][0]
    some_ = isvar(v, 1)
    hint = e.deep(st, hint)
    if some_ is FALSE and kind == 'wire' and not st.kv: return var('w'), FALSE
    hint = scal(strip_undef(vcare(hint, some_))) if some_ is not FALSE else sp('nohint')
    key = ('w', kind, hint.v)
    n = st.wc.get(key, 0)
    st.wc = dict(st.wc); st.wc[key] = n + 1
    return rawapp0(kind, n, hint, *st.kv), some_
def rawapp0(name, n, *args):
    """application without lifting of conditionals (a wire is one object)"""
    v = H('app', name, n, tuple(a.v for a in args))
    return mkT('app', (name, n) + tuple(args), v, fvs(args), hts(args))
TM.NOLIFT = {'wire', 'input'}
def _sm_wire(name):
    def f(n, *args):
        return rawapp0(name, n, *args)
    return f
SMART['wire'] = _sm_wire('wire'); SMART['input'] = _sm_wire('input')

def _alloc(c):
    w, p = wire(c, 'wire', byval(c, 1))
    c.eng.emit(c.st, 'alloc', w, p)
    return w
def _alloc_input(c):
    w, p = wire(c, 'input', byval(c, 1))
    c.eng.emit(c.st, 'input', w, p)
    return w
def _enforce(c):
    (a, _), (b, _), (d, _) = cn(c, 1), cn(c, 2), cn(c, 3)
    c.eng.emit(c.st, 'eq', sub(mul(a, b), d))
    return UNIT
CS = {
    'ConstraintSystem::alloc': _alloc,
    'ConstraintSystem::alloc_input': _alloc_input,
    'ConstraintSystem::enforce': _enforce,
}
PRIM = dict(RING); PRIM.update(CS)
def _cnum_alloc(c):
    v = byval(c, 1)
    if isinstance(v, T) and c.argtys[1] is not None: v = c.eng.coerce(v, c.argtys[1])
    if not isinstance(v, En): raise Unsup('witness')
    inner = c.eng.deep(c.st, v)
    c2 = Ctx(c.eng, c.st, c.d, c.p, c.targs, c.rid, c.body, [c.args[0], inner], [None, None], None)
    return mkcnum(_alloc(c2), FALSE)
PRIM['Signal::alloc@CNum'] = _cnum_alloc

# native numbers: conversions and bit views (established by the C15 checks)
from models import mkit, D, reprbits
def _it_le(c):
    a, _ = cn(c, 0)
    x = lift(lambda y: app('repr', y), a)
    t = peel(c.argtys[0])[2][0] if c.argtys[0] else ('par', 'F')
    return mkit(reprbits(c.eng, ('proj', 'PrimeField', 'Repr', (t,))), Agg(('d', 'fn', 'bit'), [x]))
def _it_be(c):
    r = _it_le(c)
    return mkit(r.fs[1], D('rev', r.fs[2], r.fs[1]))
def _num_from(c):
    t = c.argtys[0]
    if t is None: return NotImplemented
    a = byval(c, 0)
    if t == ('p', 'bool'): return b2n(c.eng.cond(c.st, a))
    if t[0] == 'p' and t[1] in EG.PRIMINT: return scal(a)
    if peel(t) == ('p', 'str'):
        a = scal(a)
        if isinstance(a, T) and a.op == 'app' and a.args[0] == 'str' and a.args[1].args[0][1:].isdigit(): return const(int(a.args[1].args[0][1:]))
    return NotImplemented
import models as MD
def _bit_next(c):
    v = c.eng.rd(c.st, c.eng.deref(c.st, c.args[0]))
    return MD._next(c) if MD.isit(v) else NotImplemented
NUM = {'Iterator::next@BitIteratorLE': _bit_next, 'native::num::Num::iterbit_le': _it_le, 'native::num::Num::iterbit_be': _it_be, 'From::from@Num': _num_from}
PRIM.update(NUM)

# ------------------------------------------------------------------ gadget layer
G = dict(PRIM)
def divides(f):
    def g(c):
        b, kb = cn(c, 1)
        if kb is not TRUE: c.eng.emit(c.st, 'div', b)
        return f(c)
    return g
for nm, f in (('mul', mul), ('div', div)):
    G['%s::%s@CNum,CNum' % (nm.capitalize(), nm)] = binop(f)
    G['%sAssign::%s_assign@CNum,CNum' % (nm.capitalize(), nm)] = assignop(f)
for k in ('Div::div@CNum,CNum', 'DivAssign::div_assign@CNum,CNum'): G[k] = divides(G[k])
def _eq0eff(c, x, k):
    """constant violations panic at synthesis time, the rest is a constraint"""
    bad = bnot(eq0(x))
    if k is TRUE: c.eng.panic(c.st, bad); return
    c.eng.emit(c.st, 'eq', x)
def _assert_const(c):
    (a, k), (b, _) = cn(c, 0), cn(c, 1)
    _eq0eff(c, sub(a, b), k)
    return UNIT
def _assert_eq(c):
    (a, k), (b, k2) = cn(c, 0), cn(c, 1)
    _eq0eff(c, sub(a, b), band(k, k2))
    return UNIT
def _assert_zero(c):
    a, k = cn(c, 0)
    _eq0eff(c, a, k)
    return UNIT
def _assert_bit(c):
    a, k = cn(c, 0)
    _eq0eff(c, mul(a, sub(a, ONE)), k)
    return UNIT
def _assert_nonzero(c):
    a, k = cn(c, 0)
    z = eq0(a)
    if k is TRUE: c.eng.panic(c.st, z)
    else: c.eng.emit(c.st, 'nz', a)
    return UNIT
def mkcbool(c, s, k): return Agg('fawkes_crypto::circuit::bool::CBool', [mkcnum(s, k)])
def _is_zero(c):
    a, k = cn(c, 0)
    return mkcbool(c, ite(eq0(a), ONE, ZERO), k)
def _is_eq(c):
    (a, k), (b, k2) = cn(c, 0), cn(c, 1)
    return mkcbool(c, ite(eq0(sub(a, b)), ONE, ZERO), band(k, k2))
def mux(b, x, y): return add(y, mul(b, sub(x, y)))
def _switch(c):
    (a, k), (b, kb), (d, kd) = cn(c, 0), cn(c, 1), cn(c, 2)
    return mkcnum(mux(b, a, d), band(kb, band(k, kd)))
def _inputize(c):
    a, k = cn(c, 0)
    c.eng.emit(c.st, 'public', a)
    return UNIT
G['Signal::assert_const@CNum'] = _assert_const
G['Signal::assert_eq@CNum'] = _assert_eq
G['Signal::is_eq@CNum'] = _is_eq
G['Signal::switch@CNum'] = _switch
G['Signal::inputize@CNum'] = _inputize
G['circuit::num::CNum::assert_zero'] = _assert_zero
G['circuit::num::CNum::assert_nonzero'] = _assert_nonzero
G['circuit::num::CNum::assert_bit'] = _assert_bit
G['circuit::num::CNum::is_zero'] = _is_zero
def _cbool_alloc(c):
    e, st = c.eng, c.st
    v = byval(c, 1)
    if isinstance(v, T) and c.argtys[1] is not None: v = e.coerce(v, c.argtys[1])
    v = e.deep(st, v)
    if not isinstance(v, En): raise Unsup('witness')
    b = v.pay[1][0]
    h = b2n(e.cond(st, b) if not isinstance(b, Ite) else b) if b is not UNDEF else UNDEF
    c2 = Ctx(e, st, c.d, c.p, c.targs, c.rid, c.body, [c.args[0], En(OPT, v.disc, {0: (), 1: (h,)})], [None, None], None)
    w = _alloc(c2)
    return mkcbool(c, b2n(bvar(w)), FALSE)
G['Signal::alloc@CBool'] = _cbool_alloc

def with_(base, **kw):
    d = dict(base)
    for k, v in kw.items(): d[k] = v
    return d
