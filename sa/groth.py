"""Pairing groups as exponents (the verification equation), compressed-point streams, and the interface of the
bellman back end."""
from terms import *
import terms as TM
from engine import *
import contracts as K
import models as MD
from models import byval, selfv, target, R, m

# ------------------------------------------------------------------ groups: a point is its discrete logarithm, a target-group element is gt(exponent)
def gt(t): return lift(lambda y: rawapp('gt', y), t)
def isgt(v): return isinstance(v, (T, Ite)) and all(isinstance(l, T) and (l is UNDEF or l.op == 'app' and l.args[0] == 'gt') for l in leaves(v))
def ex(v): return lift(lambda y: y if y is UNDEF else y.args[1], v)
def pt(c, i): return scal(byval(c, i))
def upd(f):
    def g(c):
        c.eng.wr(c.st, target(c, 0), f(*[pt(c, i) for i in range(len(c.args))])); return UNIT
    return g
def unrepr(x):
    def f(y):
        if y.op == 'app' and y.args[0] == 'repr': return y.args[1]
        return app('scalar', y)
    if isinstance(x, Seq): return app('scalar', opaque(x))      # limbs the code has worked on itself
    return lift(f, scal(x))
def _mul(c): return mul(pt(c, 0), unrepr(byval(c, 1)))
def _mulas(c): c.eng.wr(c.st, target(c, 0), mul(pt(c, 0), unrepr(byval(c, 1)))); return UNIT
def _miller(c):
    e, st = c.eng, c.st
    it = MD.to_iter(c, c.args[0], c.argtys[0])
    if it is NotImplemented or not MD.isit(it): return NotImplemented
    n, d = MD.it_norm(it)
    n = intconst(n) if isinstance(n, T) else None
    if n is None: return NotImplemented
    t = ZERO
    for i in range(n):
        x = e.deep(st, MD.dat(e, st, d, const(i)))
        while isinstance(x, Agg) and len(x.fs) == 1: x = x.fs[0]
        if not (isinstance(x, Agg) and len(x.fs) == 2): return NotImplemented
        t = add(t, mul(scal(x.fs[0]), scal(x.fs[1])))
    return gt(t)
def gop(f, n=2):
    def g(c):
        vs = [byval(c, i) for i in range(n)]
        if not all(isgt(v) for v in vs): return NotImplemented
        return f(c, *[ex(v) for v in vs])
    return g
def wrgt(f): return lambda c, *a: (c.eng.wr(c.st, target(c, 0), gt(f(*a))), UNIT)[1]
def isfqk(t): return t is not None and (t[0] == 'proj' and t[2] == 'Fqk' or t[0] == 'adt' and short(t[1]) == 'Fq12')
PAIR = {}
for _t in ('CurveAffine', 'CurveProjective'):
    PAIR[_t + '::zero'] = lambda c: ZERO
    PAIR[_t + '::is_zero'] = lambda c: eq0(pt(c, 0))
    PAIR[_t + '::negate'] = upd(lambda a: neg(a))
    for _n in ('prepare', 'into_projective', 'into_affine'): PAIR['%s::%s' % (_t, _n)] = lambda c: pt(c, 0)
PAIR['CurveProjective::double'] = upd(lambda a: add(a, a))
PAIR['CurveProjective::add_assign'] = PAIR['CurveProjective::add_assign_mixed'] = upd(add)
PAIR['CurveProjective::sub_assign'] = upd(sub)
PAIR['CurveProjective::mul_assign'] = _mulas
PAIR['CurveAffine::mul'] = _mul
PAIR['CurveAffine::pairing_with'] = lambda c: gt(mul(pt(c, 0), pt(c, 1)))
PAIR['Engine::pairing'] = lambda c: gt(mul(pt(c, 0), pt(c, 1)))
PAIR['Engine::miller_loop'] = _miller
PAIR['Engine::final_exponentiation'] = gop(lambda c, a: some(gt(a)), 1)
PAIR['Field::one'] = lambda c: gt(ZERO) if isfqk(c.targs[0] if c.targs else None) else NotImplemented
PAIR['Field::mul_assign'] = gop(wrgt(add))
PAIR['Field::square'] = gop(wrgt(lambda a: add(a, a)), 1)
PAIR['Field::inverse'] = gop(lambda c, a: some(gt(neg(a))), 1)
PAIR['PartialEq::eq'] = gop(lambda c, a, b: eq0(sub(a, b)))
PAIR['PartialEq::ne'] = gop(lambda c, a, b: bnot(eq0(sub(a, b))))

# ------------------------------------------------------------------ compressed points in byte streams
G1N, G2N = 2, 3       # abstract encoded sizes (only their being different and positive matters)
def encsize(c):
    s = str(c.targs[0]) if c.targs else ''
    if 'G1' in s: return G1N
    if 'G2' in s: return G2N
def _empty(c):
    n = encsize(c)
    return NotImplemented if n is None else Seq([('e', ZERO)] * n, ('p', 'u8'))
def _encsize(c):
    n = encsize(c)
    return NotImplemented if n is None else const(n)
def _read_exact(c):
    e, st = c.eng, c.st
    t = c.argtys[0]
    bpl = target(c, 1)
    b = e.rd(st, bpl)
    if not isinstance(b, Seq): return NotImplemented
    n = b.length
    inner = t[1] if t is not None and t[0] == 'ref' else None
    if inner is not None and inner[0] == 'ref' and inner[1][0] == 'slice':
        pl = e.deref(st, c.args[0])           # cursor over a slice
        spl = target(c, 0)
        s = e.rd(st, spl)
        if not isinstance(s, Seq): return NotImplemented
        short_ = ilt(s.length, n)
        if short_ is FALSE:
            e.wr(st, bpl, seq_slice(s, ZERO, n)); e.wr(st, pl, e.refto(e.ext(spl, ('sl', n, s.length))))
            return ok(UNIT)
        if short_ is TRUE:
            e.wr(st, pl, e.refto(e.ext(spl, ('sl', s.length, s.length))))
            return err(ERR)
        raise Unsup('read of symbolic length')
    rpl = target(c, 0)
    r = e.deep(st, e.rd(st, rpl))
    key = (opaque(r), n)
    e.wr(st, rpl, rawapp('read_exact.rest', *key))
    nn = intconst(n) if isinstance(n, T) else None
    if nn is None: e.wr(st, bpl, Seq([('o', rawapp('read_exact.bytes', *key), n)], b.ety))
    else: e.wr(st, bpl, Seq([('e', rawapp('read_exact.byte', i, *key)) for i in range(nn)], b.ety))
    return En(RES, ite(bvar(rawapp('read_exact.ok', *key)), ZERO, ONE), {0: (UNIT,), 1: (ERR,)})
def stream(n):
    """the rest of the stream has n bytes"""
    def f(c):
        e, st = c.eng, c.st
        rpl = target(c, 0)
        r = opaque(e.deep(st, e.rd(st, rpl)))
        bpl = target(c, 1)
        b = e.rd(st, bpl)
        if not isinstance(b, Seq): return NotImplemented
        e.wr(st, rpl, rawapp('read_to_end.rest', r))
        e.wr(st, bpl, Seq(list(b.segs) + [('e', rawapp('read_to_end.byte', i, r)) for i in range(n)], ('p', 'u8')))
        return En(RES, ite(bvar(rawapp('read_to_end.ok', r)), ZERO, ONE), {0: (const(n),), 1: (ERR,)})
    return f
def _write_all(c):
    e, st = c.eng, c.st
    wpl = target(c, 0)
    w = opaque(e.deep(st, e.rd(st, wpl)))
    b = e.deep(st, c.args[1])
    key = (w, opaque(b))
    e.wr(st, wpl, rawapp('write_all.rest', *key))
    return En(RES, ite(bvar(rawapp('write_all.ok', *key)), ZERO, ONE), {0: (UNIT,), 1: (ERR,)})
STREAM = {'EncodedPoint::empty': _empty, 'EncodedPoint::size': _encsize, 'Read::read_exact': _read_exact}
def _getrandom(c):
    """operating system randomness: every call draws new bytes"""
    e, st = c.eng, c.st
    bpl = target(c, 0)
    b = e.rd(st, bpl)
    if not isinstance(b, Seq): return NotImplemented
    h = st.store[OSLOC]
    n = b.length
    st.store[OSLOC] = rawapp('os.next', h)
    nn = intconst(n) if isinstance(n, T) else None
    if nn is None: e.wr(st, bpl, Seq([('o', rawapp('os.bytes', h), n)], b.ety))
    else: e.wr(st, bpl, Seq([('e', rawapp('os.byte', i, h)) for i in range(nn)], b.ety))
    return En(RES, ite(bvar(rawapp('os.ok', h)), ZERO, ONE), {0: (UNIT,), 1: (ERR,)})
OS = {'getrandom::getrandom': _getrandom}
def streams(n): return dict(STREAM, **{'Read::read_to_end': stream(n)})

# ------------------------------------------------------------------ bellman back end: allocations and constraints form a history
def bell(f):
    return lambda c: f(c) if c.d.startswith('bellman') else NotImplemented
def quiet(c, f):
    """value of a closure; a panic inside counts as an error result"""
    st = c.st
    pan, pc, full = st.pan, st.pc, st.full
    st.pan = FALSE
    v = f()
    p = st.pan
    st.pan, st.pc, st.full = pan, pc, full
    return v, p
def _balloc(kind):
    def f(c):
        e, st = c.eng, c.st
        w, p = quiet(c, lambda: e.call_value(st, c.args[2], [], None))
        if p is not FALSE or not isinstance(w, (En, Ite)): raise Unsup('witness closure')
        pl = target(c, 0)
        b = opaque(e.deep(st, e.rd(st, pl)))
        w = opaque(e.deep(st, w))
        e.wr(st, pl, rawapp('bcs.' + kind, b, w))
        return En(RES, ite(bvar(rawapp('bcs.ok.' + kind, b, w)), ZERO, ONE), {0: (rawapp('bcs.var.' + kind, b, w),), 1: (ERR,)})
    return bell(f)
def _benforce(c):
    e, st = c.eng, c.st
    ls = [opaque(e.deep(st, e.call_value(st, c.args[i], [sp('lc.zero')], None))) for i in (2, 3, 4)]
    pl = target(c, 0)
    e.wr(st, pl, rawapp('bcs.enforce', opaque(e.deep(st, e.rd(st, pl))), *ls))
    return UNIT
BELL = {'ConstraintSystem::alloc': _balloc('alloc'), 'ConstraintSystem::alloc_input': _balloc('alloc_input'), 'ConstraintSystem::enforce': bell(_benforce)}
