"""Integers behind field elements: big integers, byte encodings and limbs, and the conversion checks of C15.

An integer and its residue share one term: from_repr of an integer in range is that integer read in the field.
Byte strings written from an integer X are views of bebytes(X, n); reading a padded complete view gives X back."""
from terms import *
import terms as TM
from engine import *
from models import *
import models as MD
from compare import *

class Ctx15:
    on = False; bits = {}; nbits = {}
CTX = Ctx15()

def isapp(t, n): return isinstance(t, T) and t.op == 'app' and t.args[0] == n
def ischar(t): return isinstance(t, T) and t.op == 'sp' and t.args[0].startswith('char:')

# ------------------------------------------------------------------ rewriting
def upper(t):
    """upper bound of a natural term, or None"""
    c = intconst(t)
    if c is not None: return c
    r = 0
    for m, k in poly(t).items():
        if k < 0: continue
        x = k
        for a in m:
            u = TM._TT[a]
            b = CTX.bits.get(u)
            if b is None and isapp(u, 'get') and isapp(u.args[1], 'limbs'): b = 64
            if b is None: return None
            x *= (1 << b) - 1
        r += x
    return r
def s_inrange(x, f):
    if isapp(x, 'imod') and ischar(x.args[2]) and x.args[2].args[0] == 'char:' + f: return TRUE
    c = intconst(x)
    if c is not None and 0 <= c < 1 << 64: return TRUE
    if not CTX.on or not isinstance(x, T): return None
    if not prove_ge0(x): return None
    u = upper(x)
    n = CTX.nbits.get(f)
    if u is not None and n is not None and u < 1 << (n - 1): return TRUE
    if prove_ge0(sub(sub(sp('char:' + f), ONE), x)): return TRUE
    return None
SMART['inrange'] = s_inrange
def embed(x):
    if isapp(x, 'repr'): return x.args[1]
    r = ZERO
    for m, k in poly(x).items():
        t = const(k)
        for a in m:
            u = TM._TT[a]
            if ischar(u): t = ZERO
            elif (isapp(u, 'imod') or isapp(u, 'brem')) and ischar(u.args[2]): t = mul(t, embed2(u.args[1]))
            else: t = mul(t, u)
        r = add(r, t)
    return r
def embed2(x): return x if isapp(x, 'repr') else embed(x)
def s_from_repr(x):
    if isinstance(x, Ite): return lift(lambda y: app('from_repr', y), x)
    if isinstance(x, T) and x.op in ('app',) and x.args[0] in ('pack', 'opq') : return None
    if isinstance(x, T) and x is not UNDEF: return embed(x)
SMART['from_repr'] = s_from_repr
def s_pack(q):
    if isinstance(q, Ite): return lift(lambda y: app('pack', y), q)
    if not isinstance(q, Seq): return None
    if len(q.segs) == 1 and q.segs[0][0] == 'o' and isapp(q.segs[0][1], 'limbs'): return q.segs[0][1].args[1]
    if not q.all_e() or not q.segs: return None
    es = q.els()
    b = es[0]
    if isapp(b, 'get') and isapp(b.args[1], 'limbs') and all(isapp(x, 'get') and x.args[1] is b.args[1] and intconst(x.args[2]) == i for i, x in enumerate(es)):
        return b.args[1].args[1]
    r = ZERO
    for i, x in enumerate(es): r = add(r, mul(x, const(1 << (64 * i))))
    return r
SMART['pack'] = s_pack
_old_get = SMART['get']
def s_get(b, i):
    if isapp(b, 'limbs') and (isapp(b.args[1], 'repr') and b.args[1].args[1] is ZERO or b.args[1] is ZERO): return ZERO
    if isapp(b, 'limbs') and isapp(b.args[1], 'pack') and isinstance(b.args[1].args[1], Seq): return seq_get(b.args[1].args[1], i)
    return _old_get(b, i)
SMART['get'] = s_get
def elem2(base, i, ety):
    if isapp(base, 'limbs'):
        r = s_get(base, i)
        if r is not None: return r
    return _old_elem(base, i, ety)
_old_elem = TM.elem
TM.elem = elem2
def s_iabs(x):
    if isinstance(x, Ite): return lift(lambda y: app('iabs', y), x)
    c = intconst(x)
    if c is not None: return const(abs(c))
    if not CTX.on: return None
    if prove_ge0(x): return x
    if prove_ge0(neg(x)): return neg(x)
SMART['iabs'] = s_iabs
def s_cast(k, x):
    if isinstance(x, Ite): return lift(lambda y: app('cast', k, y), x)
    a, b = k.split('->')
    w = WIDTH[b]
    if isapp(x, 'iabs') and b[0] == 'u':
        y = x.args[1]
        c = intconst(y)
        if c is not None and abs(c) < 1 << w: return const(abs(c))
    if not CTX.on: return None
    if prove_ge0(x):
        u = upper(x)
        if u is not None and u < 1 << (w if b[0] == 'u' else w - 1): return x
    elif prove_ge0(neg(x)):
        u = upper(neg(x))
        if u is not None and u <= 1 << (w - 1): return x if b[0] == 'i' else add(x, const(1 << w))
SMART['cast'] = s_cast
def s_imod(x, m):
    if isinstance(x, Ite): return lift(lambda y: app('imod', y, m), x)
    if x is ZERO: return ZERO
    if isapp(x, 'imod') and x.args[2] is m: return x
    if CTX.on and not prove_ge0(x) and prove_ge0(neg(x)):
        u = app('imod', neg(x), m)
        return ite(ieq(u, ZERO), ZERO, sub(m, u))
SMART['imod'] = s_imod
def s_brem(x, m):
    if isinstance(x, Ite): return lift(lambda y: app('brem', y, m), x)
    if x is ZERO: return ZERO
    if not CTX.on: return None
    if prove_ge0(x): return app('imod', x, m)
    if prove_ge0(neg(x)): return neg(app('imod', neg(x), m))
SMART['brem'] = s_brem
def s_beval(q):
    """value of a big-endian byte string"""
    if isinstance(q, Ite): return lift(lambda y: app('beval', y), q)
    if isapp(q, 'bebytes'): return q.args[1]
    if not isinstance(q, Seq): return None
    if len(q.segs) == 1 and q.segs[0][0] == 'o' and (not isinstance(q.segs[0][1], T) or q.segs[0][1].op == 'sp') or not q.segs: return None
    acc, w = ZERO, 0
    for g in reversed(q.segs):
        if g[0] == 'e':
            if g[1] is ZERO:
                w = w + 1 if w is not None else None
                continue
            if w is None: return None
            acc = add(acc, mul(g[1], const(256 ** w))); w += 1
        elif g[0] == 'm':
            n = intconst(g[1])
            b = g[3]
            if isapp(b, 'get') and isapp(b.args[1], 'bebytes') and b.args[2] is g[2] and peq(b.args[1].args[2], g[1]):
                if w is None: return None
                acc = add(acc, mul(b.args[1].args[1], const(256 ** w)))
                w = w + n if n is not None else None
                continue
            if b is not ZERO: return None
            w = w + n if n is not None and w is not None else None
        else:
            b, n = g[1], g[2]
            if not isapp(b, 'bebytes') or not peq(b.args[2], n): 
                if len(q.segs) == 1 or acc is not ZERO or w != 0: return None
                x = rawapp('beval', Seq([g], q.ety))
            else: x = b.args[1]
            if w is None: return None
            acc = add(acc, mul(x, const(256 ** w)))
            n = intconst(n)
            w = w + n if n is not None else None
    return acc
SMART['beval'] = s_beval
_old_iand = SMART['iand']
def s_iand(a, b):
    if isinstance(a, T) and isinstance(b, T):
        for x, y in ((a, b), (b, a)):
            c = intconst(x)
            if c and c & (c - 1) == 0 and isapp(y, 'get') and isapp(y.args[1], 'limbs') and intconst(y.args[2]) is not None:
                return mul(const(c), ite(bitof(y.args[1].args[1], const(64 * intconst(y.args[2]) + c.bit_length() - 1)), ONE, ZERO))
            if c == 1 and isapp(y, 'idiv'):
                k = intconst(y.args[2]); z = y.args[1]
                if k and k & (k - 1) == 0 and isapp(z, 'get') and isapp(z.args[1], 'limbs') and intconst(z.args[2]) is not None:
                    return ite(bitof(z.args[1].args[1], const(64 * intconst(z.args[2]) + k.bit_length() - 1)), ONE, ZERO)
    return _old_iand(a, b)
SMART['iand'] = s_iand

# ------------------------------------------------------------------ models
def isbig(t):
    t = peel(t) if t is not None else None
    return t is not None and t[0] == 'adt' and short(t[1]) in ('BigUint', 'BigInt')
def bv(c, i):
    v = c.eng.cont(c.st, c.args[i])
    return scal(v)
@m('BigUint::from_bytes_be', 'BigUint::from_bytes_le')
def _fbb(c):
    q = c.eng.cont(c.st, c.args[0])
    q = c.eng.coerce(q, peel(c.argtys[0])) if isinstance(q, T) and c.argtys[0] is not None else q
    if isinstance(q, Ite) and not all(isinstance(x, Seq) for x in leaves(q)): return NotImplemented
    if c.p.endswith('_le'):
        if not isinstance(q, Seq): return NotImplemented
        return rawapp('leval', q)
    return app('beval', q) if isinstance(q, (Seq, Ite)) else NotImplemented
def bebytes(x, n): return Seq([('o', rawapp('bebytes', x, n), n)], ('p', 'u8'))
@m('BigUint::to_bytes_be')
def _tbb(c):
    x = bv(c, 0)
    if isinstance(x, Ite): x = mkT('app', ('bigv', x), H('bigv', x.v), x.fv, x.h) if False else x
    return lift(lambda y: bebytes(y, rawapp('bytelen', y)), x) if isinstance(x, T) else bebytes(x, rawapp('bytelen', x))
def wrapbin(name, f):
    old = M.get(name)
    def g(c):
        if isbig(c.argtys[0]) and (len(c.args) < 2 or isbig(c.argtys[1]) or c.argtys[1] is not None and MD.is_prim(peel(c.argtys[1]))): return f(c)
        return old(c) if old else NotImplemented
    M[name] = g
def trunc_rem(c):
    t = peel(c.argtys[0])
    a, b = bv(c, 0), bv(c, 1)
    return lift(lambda x, y: app('imod' if short(t[1]) == 'BigUint' else 'brem', x, y), a, b)
wrapbin('Rem::rem', trunc_rem)
wrapbin('Add::add', lambda c: add(bv(c, 0), bv(c, 1)))
wrapbin('Mul::mul', lambda c: mul(bv(c, 0), bv(c, 1)))
def bsub(c):
    a, b = bv(c, 0), bv(c, 1)
    if short(peel(c.argtys[0])[1]) == 'BigUint': c.eng.panic(c.st, ilt(a, b))
    return sub(a, b)
wrapbin('Sub::sub', bsub)
def assign(f):
    def g(c):
        c.eng.wr(c.st, c.eng.deref(c.st, c.args[0]), f(c)); return UNIT
    return g
wrapbin('AddAssign::add_assign', assign(lambda c: add(bv(c, 0), bv(c, 1))))
wrapbin('SubAssign::sub_assign', assign(bsub))
wrapbin('RemAssign::rem_assign', assign(trunc_rem))
wrapbin('Neg::neg', lambda c: neg(bv(c, 0)))
for _o, _f in (('lt', lambda a, b: ilt(a, b)), ('le', lambda a, b: ile(a, b)), ('gt', lambda a, b: ilt(b, a)), ('ge', lambda a, b: ile(b, a))):
    wrapbin('PartialOrd::' + _o, lambda c, f=_f: f(bv(c, 0), bv(c, 1)))
wrapbin('PartialEq::eq', lambda c: ieq(bv(c, 0), bv(c, 1)))
wrapbin('PartialEq::ne', lambda c: bnot(ieq(bv(c, 0), bv(c, 1))))
def _bcmp(c):
    a, b = bv(c, 0), bv(c, 1)
    o = MD.ordering(ilt(a, b), ieq(a, b))
    return some(o) if c.d.endswith('partial_cmp') else o
wrapbin('Ord::cmp', _bcmp); wrapbin('PartialOrd::partial_cmp', _bcmp)
@m('Signed::is_negative', 'BigInt::is_negative')
def _isneg(c): return lt0(bv(c, 0))
@m('Signed::is_positive')
def _ispos(c): return lt0(neg(bv(c, 0)))
@m('Zero::is_zero')
def _biz(c): return ieq(bv(c, 0), ZERO) if isbig(c.argtys[0]) else NotImplemented
@m('Zero::zero')
def _bz(c): return ZERO if isbig(c.ret) else NotImplemented
@m('One::one')
def _bo(c): return ONE if isbig(c.ret) else NotImplemented
@m('ToBigInt::to_bigint', 'BigUint::to_bigint')
def _tobi(c): return some(bv(c, 0))
@m('BigInt::to_biguint', 'ToBigUint::to_biguint')
def _tobu(c):
    x = bv(c, 0)
    return option(bnot(lt0(x)), x)
@m('Integer::mod_floor')
def _modf(c): return lift(lambda x, y: app('imod', x, y), bv(c, 0), bv(c, 1)) if isbig(c.argtys[0]) else NotImplemented
@m('Signed::abs')
def _sabs(c): return lift(lambda x: app('iabs', x), bv(c, 0)) if isbig(c.argtys[0]) else NotImplemented
for _t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    def _mk(w):
        def ab(c):
            x = scal(c.args[0])
            if w < 128: c.eng.panic(c.st, ieq(x, const(-(1 << (w - 1)))))
            return lift(lambda y: app('iabs', y), x)
        def uab(c): return lift(lambda y: app('iabs', y), scal(c.args[0]))
        return ab, uab
    _a, _u = _mk(WIDTH[_t])
    M[_t + '::abs'], M[_t + '::unsigned_abs'] = _a, _u
    M[_t + '::is_negative'] = lambda c: lt0(scal(c.args[0]))
    M[_t + '::is_positive'] = lambda c: lt0(neg(scal(c.args[0])))

for _t, _w in WIDTH.items():
    M[_t + '::max_value'] = lambda c, n=(1 << (_w - (_t[0] == 'i'))) - 1: const(n)
    M[_t + '::min_value'] = lambda c, n=-(1 << (_w - 1)) if _t[0] == 'i' else 0: const(n)
    if _t[0] == 'i':
        def _wab(c, mn=-(1 << (_w - 1))):
            x = scal(c.args[0])
            return ite(ieq(x, const(mn)), const(mn), lift(lambda y: app('iabs', y), x))
        M[_t + '::wrapping_abs'] = _wab
        def _wng(c, mn=-(1 << (_w - 1))):
            x = scal(c.args[0])
            return ite(ieq(x, const(mn)), const(mn), neg(x))
        M[_t + '::wrapping_neg'] = _wng

def lower(x):
    u = upper(neg(x))
    c = intconst(x)
    return c if c is not None else None if u is None else -u
def s_wrap(k, x):
    if isinstance(x, Ite): return lift(lambda y: app('wrap', k, y), x)
    w = 1 << WIDTH[k]
    c = intconst(x)
    if c is not None: return const(c % w)
    if not CTX.on: return None
    p = dict(poly(x)); c = p.pop((), 0)
    rest = frompoly(p)
    if prove_ge0(rest): lo, hi = c, upper(rest)
    elif prove_ge0(neg(rest)): lo, hi = upper(neg(rest)), c; lo = None if lo is None else c - lo
    else: return None
    if rest is not None and prove_ge0(rest): hi = None if hi is None else c + hi
    if lo is None or hi is None or lo // w != hi // w: return None
    return sub(x, const(w * (lo // w)))
SMART['wrap'] = s_wrap
_old_idiv = SMART.get('idiv')
def s_idiv(x, m):
    c = intconst(m) if isinstance(m, T) else None
    if CTX.on and c is not None and c > 0 and isinstance(x, T) and x is not UNDEF and intconst(x) is None and prove_ge0(x):
        u = upper(x)
        if u is not None and u < c: return ZERO
    return _old_idiv(x, m) if _old_idiv else None
SMART['idiv'] = s_idiv
def wrapped(t, f):
    def g(c): return lift(lambda *xs: app('wrap', t, f(*xs)), *[scal(byval(c, i)) for i in range(len(c.args))])
    return g
for _t in ('u64', 'u32'):
    M[_t + '::wrapping_neg'] = wrapped(_t, neg)
    M[_t + '::wrapping_sub'] = wrapped(_t, sub)

def reprlen(c, t):
    n = nlimbs(c.eng, t)
    return mul(const(8), n)
def bytetarget(c, i):
    """(place, content, growable) of a byte buffer argument"""
    e, st = c.eng, c.st
    t = c.argtys[i]
    if t is None or t[0] != 'ref': return None
    depth = 0; p = t
    while p[0] == 'ref': depth += 1; p = p[1]
    if p == ('slice', ('p', 'u8')) or p[0] == 'array': grow = False
    elif p[0] == 'adt' and short(p[1]) == 'Vec': grow = True
    else: return None
    if depth != 1: return None
    pl = e.deref(st, c.args[i])
    e.shape(st, pl, p)
    v = e.rd(st, pl)
    return (pl, v, grow) if isinstance(v, Seq) else None
@m('PrimeFieldRepr::write_be')
def _wbe(c):
    r = bytetarget(c, 1)
    if r is None: return NotImplemented
    pl, v, grow = r
    x = bv(c, 0)
    L = reprlen(c, peel(c.argtys[0]))
    enc = bebytes(x, L)
    if grow: c.eng.wr(c.st, pl, seq_concat(v, enc)); return ok(UNIT)
    a, b = intconst(v.length), intconst(L)
    if a is None or b is None: return NotImplemented
    if a < b:
        c.eng.wr(c.st, pl, Seq([('e', rawapp('get', enc.segs[0][1], const(i))) for i in range(a)], ('p', 'u8')))
        return En(RES, ONE, {0: (UNIT,), 1: (ERR,)})
    c.eng.wr(c.st, pl, enc if a == b else seq_concat(enc, seq_slice(v, L, v.length)))
    return ok(UNIT)
@m('PrimeFieldRepr::read_be')
def _rbe(c):
    t = c.argtys[1]
    if t is None or t[0] != 'ref' or t[1][0] == 'ref': return NotImplemented
    q = c.eng.cont(c.st, c.args[1])
    if isinstance(q, T): q = c.eng.coerce(q, peel(t))
    L = intconst(reprlen(c, peel(c.argtys[0])))
    if L is None: return NotImplemented
    def f(s):
        n = intconst(s.length) if isinstance(s.length, T) else None
        if n is None: raise Unsup('length of a byte buffer')
        if n < L: return None
        x = app('beval', s if n == L else seq_slice(s, ZERO, const(L)))
        return x
    if not isinstance(q, Seq): return NotImplemented
    x = f(q)
    pl = c.eng.deref(c.st, c.args[0])
    if x is None:
        c.eng.wr(c.st, pl, rawapp('partial_read', opaque(q))); return En(RES, ONE, {0: (UNIT,), 1: (ERR,)})
    c.eng.wr(c.st, pl, x)
    return ok(UNIT)

# ------------------------------------------------------------------ checks
def again(x):
    """re-evaluate under the facts in force"""
    from elim import mapatoms
    def f(at):
        if at.kind != 'LT': return None
        L, th = at.data
        if prove_ge0(sub(L, const(th))): return FALSE
        if prove_ge0(sub(const(th - 1), L)): return TRUE
    return mapatoms(subst(x, {sp('__nothing'): ZERO}, True), f)
class ctx:
    def __init__(s, bits, nbits): s.b, s.n = bits, nbits
    def __enter__(s): CTX.on, CTX.bits, CTX.nbits = True, s.b, s.n
    def __exit__(s, *a): CTX.on, CTX.bits, CTX.nbits = False, {}, {}
FS = {'F': 254, 'G': 255}
def signed(w):
    k = var('k')
    return [('non-negative', {sp('arg0'): k}, {k: w}, (), None), ('negative', {sp('arg0'): sub(const(-1), k)}, {k: w}, (), None)]
def unsigned_(w):
    k = var('k')
    return [('', {sp('arg0'): k}, {k: w}, (), None)]
def bigcases():
    k, j, ch = var('k'), var('j'), sp('char:F')
    u = rawapp('imod', add(ONE, k), ch)
    return [('non-negative', {sp('arg0'): k}, {}, (), None),
            ('negative multiple of the order', {sp('arg0'): sub(const(-1), k)}, {}, (), {u: ZERO}),
            ('negative', {sp('arg0'): sub(const(-1), k)}, {}, (sub(sub(ch, const(2)), j),), {u: add(ONE, j)})]
CASES = {'u64': lambda: unsigned_(64), 'u32': lambda: unsigned_(32), 'i64': lambda: signed(63), 'i32': lambda: signed(31), 'biguint': lambda: unsigned_(None), 'bigint': bigcases}

def conv(pr, inst=None):
    """the conversion `pr.s` yields the integer arg0 as a field element and never fails"""
    import pairs
    e, S = pairs.run(pr.s, pr.layer, pr.extra, inst, 400)
    meta = {'functions': sorted(x for x in e.analysed if not x.startswith('harness')), 'calls': e.ncalls, 'effects': len(S.eff)}
    if e.unknown: return dict(meta, res='unsup', why='unmodelled calls ' + ', '.join(sorted(e.unknown))[:200])
    nb = {k.split(':')[1]: v for k, v in (inst or {}).items() if k.startswith('NUM_BITS:')}
    bad = []
    def judge(case, what, x, want):
        if isinstance(x, V) and x.v == want.v: return
        voc = atoms_of(x, set())
        if any(str(v).startswith('ext:') for v in voc) or voc & {'opq', 'leval', 'cast', 'iabs', 'partial_read', 'wrap', 'bitnot', 'lz', 'iand', 'ior', 'ixor'}:
            raise Unsup('%s %s outside the integer theory: %s' % (case, what, show(x, 5)[:200]))
        bad.append('%s%s is %s where %s is required' % (case + ': ' if case else '', what, show(x, 6)[:600], show(want, 6)))
    pk = pr.want
    a0 = sp('arg0')
    def breaks(k, n, *xs):
        """arguments below n at which a comparison in the results changes its mind"""
        from elim import mapatoms
        pts = set()
        def f(at):
            if at.kind == 'LT':
                L, th = at.data
                a, b = intconst(subst(L, {k: ZERO}, True)), intconst(subst(L, {k: ONE}, True))
                if a is not None and b is not None and a != b:
                    d = b - a
                    q = -((a - th) // d) if d > 0 else (a - th) // -d + 1      # the first k with the comparison changed
                    pts.update(x for x in (q - 1, q, q + 1) if 0 < x < n)
            return None
        for x in xs: mapatoms(x, f)
        return sorted(pts)
    if pk in CASES:
        for case, mp, bits, fs, mp2 in CASES[pk]():
            bits = {k: v for k, v in bits.items() if v is not None}
            with ctx(bits, nb), facts(*fs):
                p, r = subst(S.pan, mp, True), scal(subst(S.ret, mp, True))
                if mp2:
                    p, r = subst(p, mp2, True), subst(r, mp2, True)
                p, r = again(p), again(r)
                want = subst(a0, mp, True)
                r = lift(lambda y: y if y is UNDEF or isapp(y, 'repr') else embed(y), r)
                if mp2 and isinstance(r, T) and r.v != want.v:
                    (u, w), = mp2.items()
                    want2 = neg(w)
                    if r.v == embed(want2).v: r = want
                ks = list(bits)
                pts = breaks(ks[0], 1 << bits[ks[0]], p, r) if len(ks) == 1 else []
                if 0 < len(pts) <= 16:
                    k, lim = ks[0], [0] + pts + [1 << bits[ks[0]]]
                    for lo, hi in zip(lim, lim[1:]):
                        with facts(sub(k, const(lo)), sub(const(hi - 1), k)):
                            m1 = {k: const(lo)} if hi == lo + 1 else {sp('__nothing'): ZERO}
                            p1, r1, w1 = [again(subst(x, m1, True)) for x in (p, r, want)]
                            r1 = lift(lambda y: y if y is UNDEF or isapp(y, 'repr') else embed(y), r1)
                        judge(case, 'panic condition', p1, FALSE)
                        judge(case, 'result', r1, w1)
                    continue
            judge(case, 'panic condition', p, FALSE)
            judge(case, 'result', r, want)
    else:
        want = {'repr': app('repr', a0), 'beval': None, 'bytes': None, 'bits': None}[pk]
        if pk == 'repr': judge('', 'result', scal(S.ret), want)
        elif pk == 'beval':
            q = e.coerce(e.expand(a0, ('slice', ('p', 'u8'))), ('slice', ('p', 'u8')))
            judge('', 'result', scal(S.ret), app('beval', q))
        elif pk == 'bytes':
            q = fin(S.ret)
            n = (inst['NUM_BITS:F'] + 7) // 8
            if not isinstance(q, Seq): raise Unsup('byte result')
            judge('', 'length', q.length, const(n))
            judge('', 'big-endian value', app('beval', q), app('repr', a0))
        elif pk == 'bits':
            q = fin(S.ret)
            if not isinstance(q, Seq): raise Unsup('bit result')
            n = 64 * inst['nlimbs:F']
            judge('', 'number of bits', q.length, const(n))
            if q.length.v == const(n).v:
                for i in range(n):
                    judge('', 'bit %d' % i, again(seq_get(q, const(i))), bitof(app('repr', a0), const(i if 'le' in pr.s else n - 1 - i)))
                    if bad: break
        judge('', 'panic condition', again(S.pan), FALSE)
    if bad: return dict(meta, res='diff', what='%s: %s' % (pr.name, bad[0]), report='\n'.join(bad))
    return dict(meta, res='eq')
