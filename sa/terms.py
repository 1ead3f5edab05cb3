"""Value-number domain of the analysis.

Scalars are hash-consed terms.  Ring arithmetic (field elements and machine integers) is
value-numbered by random interpretation (Gulwani/Necula): every opaque atom is mapped to a
pseudo-random pair of elements of Z_P derived from its name and the value numbers of its
arguments, and +,-,*,1/x are evaluated in Z_P on both lanes, so two rational expressions get the
same number iff they are identical as rational functions (up to probability ~2^-120).
Conditional values are multi-terminal decision diagrams over ordered condition atoms.
Nothing of the analysed program is executed.
"""
import hashlib, itertools, math
P = (1 << 127) - 1

_hmemo = {}
def H(*xs):
    r = _hmemo.get(xs)
    if r is None:
        d = hashlib.blake2b(repr(xs).encode(), digest_size=40).digest()
        r = (int.from_bytes(d[:20], 'big') % P, int.from_bytes(d[20:], 'big') % P)
        _hmemo[xs] = r
    return r

EMPTY = frozenset()

class V:
    __slots__ = ()

class T(V):
    """scalar term"""
    __slots__ = ('op', 'args', 'v', 'fv', 'h', '_poly')
    def __init__(s, op, args, v, fv, h):
        s.op, s.args, s.v, s.fv, s.h, s._poly = op, args, v, fv, h, None
    def __repr__(s): return show(s)

class Ite(V):
    __slots__ = ('at', 'hi', 'lo', 'v', 'fv', 'h', 'groups', 'id')
    def __repr__(s): return show(s)

class Agg(V):
    """struct / tuple value"""
    __slots__ = ('tag', 'fs', '_v', '_fv', '_h')
    def __init__(s, tag, fs):
        s.tag, s.fs, s._v, s._fv, s._h = tag, tuple(fs), None, None, None
    @property
    def v(s):
        if s._v is None: s._v = s.fs[0].v if len(s.fs) == 1 or s.tag == 'CNum' else H('agg', tuple(f.v for f in s.fs))
        return s._v
    @property
    def fv(s):
        if s._fv is None: s._fv = frozenset().union(*[f.fv for f in s.fs]) if s.fs else EMPTY
        return s._fv
    @property
    def h(s):
        if s._h is None: s._h = max([f.h for f in s.fs], default=0)
        return s._h
    def __repr__(s): return show(s)

class En(V):
    """enum value: discriminant (decision diagram) + payload per variant"""
    __slots__ = ('tag', 'disc', 'pay', '_v', '_fv', '_h')
    def __init__(s, tag, disc, pay):
        s.tag, s.disc, s._v, s._fv, s._h = tag, disc, None, None, None
        s.pay = {k: tuple(p) for k, p in pay.items()}
    def _all(s):
        return [s.disc] + [x for k in sorted(s.pay) for x in s.canpay(k)]
    def canpay(s, k):
        c = isvar(s, k)
        if c is FALSE: return ()
        return [vite(c, vcare(x, c) if isinstance(x, Seq) else x, UNDEF) for x in s.pay[k]]
    @property
    def v(s):
        if s._v is None:
            s._v = H('en', s.disc.v, tuple((k, tuple(x.v for x in s.canpay(k))) for k in sorted(s.pay) if s.pay[k]))
        return s._v
    @property
    def fv(s):
        if s._fv is None: s._fv = frozenset().union(*[f.fv for f in s._all()])
        return s._fv
    @property
    def h(s):
        if s._h is None: s._h = max([f.h for f in s._all()], default=0)
        return s._h
    def __repr__(s): return show(s)

class Lam(V):
    __slots__ = ('k', 'body', 'v', 'fv', 'h')
    def __init__(s, k, body):
        s.k, s.body = k, body
        s.fv = body.fv - {k}
        s.h = body.h + 1
        s.v = H('lam', subst(body, {k: cank(s.h)}).v)
    def __call__(s, x): return subst(s.body, {s.k: x})
    def __repr__(s): return 'λ%s.%s' % (show(s.k), show(s.body))

# ------------------------------------------------------------------ scalars
_TT = {}
def mkT(op, args, v, fv=EMPTY, h=0):
    t = _TT.get(v)
    if t is None:
        t = _TT[v] = T(op, args, v, fv, h)
    return t

def const(n): 
    n = int(n)
    return mkT('const', (n,), (n % P, n % P))
def sp(name): return mkT('sp', (name,), H('sp', name))
TRUE, FALSE, UNDEF, UNIT0 = sp('true'), sp('false'), sp('undef'), sp('unit')
ERR = sp('err')
ZERO, ONE = const(0), const(1)
UNIT = Agg('()', ())
def boolv(b): return TRUE if b else FALSE

_ctr = itertools.count()
def var(prefix='k'):
    n = '%s%d' % (prefix, next(_ctr))
    t = T('var', (n,), H('var', n), None, 0)
    t.fv = frozenset([t])
    _TT[t.v] = t
    return t
_cank = {}
def cank(h):
    t = _cank.get(h)
    if t is None:
        t = T('cank', (h,), H('cank', h), EMPTY, 0)
        _TT[t.v] = t
        _cank[h] = t
    return t

def fvs(xs):
    r = EMPTY
    for x in xs:
        f = x.fv
        if f: r = r | f
    return r
def hts(xs):
    h = 0
    for x in xs:
        if x.h > h: h = x.h
    return h

# smart constructors for named applications: name -> function(args)->Value or None
SMART = {}
def app(name, *args):
    f = SMART.get(name)
    if f:
        r = f(*args)
        if r is not None: return r
    return rawapp(name, *args)

LIFTCAP = 48
def rawapp(name, *args):
    """uninterpreted application; conditional scalar arguments are lifted out (bounded)"""
    ites = [a for a in args if isinstance(a, Ite)]
    if ites:
        n = 1
        for a in ites: n *= leafcount(a)
        if n <= LIFTCAP:
            return lift(lambda *xs: rawapp(name, *xs), *args)
    for i, a in enumerate(args):
        if a is UNDEF: return UNDEF
    if BIG[0] and name not in ('b2n', 'sel'):
        cs = []
        for a in args: sels(a, cs)
        for c in sorted(set(cs), key=lambda c: -c.at.idx):
            if cs.count(c) > 1:
                return vite(c, rawapp(name, *[selcof(a, c, 1) for a in args]), rawapp(name, *[selcof(a, c, 0) for a in args]))
    # lift conditionals nested in aggregates
    d = decomp(args)
    if d is not None: 
        at, hi, lo = d
        return ite(mkcond(at), rawapp(name, *hi), rawapp(name, *lo))
    v = H('app', name, tuple(a.v if isinstance(a, V) else a for a in args))
    va = [a for a in args if isinstance(a, V)]
    return mkT('app', (name,) + tuple(args), v, fvs(va), hts(va))

def bitsof(t):
    """conditions a scalar depends on through b2n and sel"""
    if t.op == 'app': return {t.args[1]} if t.args[0] in ('b2n', 'sel') else ()
    if t.op not in ('add', 'mul'): return ()
    p = poly(t)
    if len(p) > 60: return ()
    return {_TT[a].args[1] for m in p for a in m if _TT[a].op == 'app' and _TT[a].args[0] in ('b2n', 'sel')}
def sels(x, out):
    """such conditions directly in x or in the elements of an aggregate"""
    if isinstance(x, T): out.extend(bitsof(x))
    elif isinstance(x, Agg):
        for f in x.fs: sels(f, out)
    elif isinstance(x, Seq):
        for g in x.segs:
            if g[0] == 'e': sels(g[1], out)
def selcof(x, c, k):
    if isinstance(x, T):
        if c not in bitsof(x): return x
        r = ZERO
        for m, n in sorted(poly(x).items()):
            y = const(n)
            for a in m:
                a = _TT[a]
                if a.op == 'app' and a.args[0] in ('b2n', 'sel') and a.args[1] is c: a = (ONE if k else ZERO) if a.args[0] == 'b2n' else a.args[2 if k else 3]
                y = _mul(y, a)
            r = _add(r, y)
        return r
    if isinstance(x, Agg): return Agg(x.tag, [selcof(f, c, k) for f in x.fs])
    if isinstance(x, Seq): return Seq([('e', selcof(g[1], c, k)) if g[0] == 'e' else g for g in x.segs], x.ety)
    return x
def nested_ites(x, out, depth=0):
    if isinstance(x, Ite): out.append(x)
    elif isinstance(x, Agg):
        if x.tag == 'CNum': return nested_ites(x.fs[0], out, depth + 1)
        for f in x.fs: nested_ites(f, out, depth + 1)
    elif isinstance(x, En):
        if isinstance(x.disc, Ite): out.append(x.disc)
        for k in x.pay:
            for f in x.pay[k]: nested_ites(f, out, depth + 1)
    elif isinstance(x, Seq):
        for sg in x.segs:
            if sg[0] == 'e': nested_ites(sg[1], out, depth + 1)

def decomp(args):
    out = []
    for a in args:
        if isinstance(a, (Agg, En, Seq)): nested_ites(a, out)
    if not out: return None
    ats = set()
    for i in out: collect_atoms(i, ats)
    if len(ats) > 5: return None
    at = min(ats, key=lambda a: a.idx)
    hi = [cofactor(a, at, True) if isinstance(a, V) else a for a in args]
    lo = [cofactor(a, at, False) if isinstance(a, V) else a for a in args]
    return at, hi, lo

def collect_atoms(x, out):
    if isinstance(x, Ite):
        if x.at in out and False: return
        out.add(x.at); collect_atoms(x.hi, out); collect_atoms(x.lo, out)

def cofactor(x, at, val):
    if isinstance(x, Ite):
        if x.at is at: return x.hi if val else x.lo
        if x.at.idx > at.idx: return x
        return mk(x.at, cofactor(x.hi, at, val), cofactor(x.lo, at, val))
    if isinstance(x, Agg): return Agg(x.tag, [cofactor(f, at, val) for f in x.fs])
    if isinstance(x, En):
        d = cofactor(x.disc, at, val)
        return En(x.tag, d, {k: [cofactor(f, at, val) for f in p] for k, p in x.pay.items()})
    if isinstance(x, Seq):
        return Seq([('e', cofactor(s[1], at, val)) if s[0] == 'e' else s for s in x.segs], x.ety)
    return x

def leafcount(x, cap=64):
    seen = set()
    def go(y):
        if isinstance(y, Ite): go(y.hi); go(y.lo)
        else: seen.add(y.v)
    go(x)
    return len(seen)

# ------------------------------------------------------------------ decision diagrams
class At:
    __slots__ = ('kind', 'key', 'data', 'idx', 'group', 'fv', 'h')
    def __repr__(s): return show_at(s)
_AT = {}
def atom(kind, key, data, group, fv, h):
    a = _AT.get((kind, key))
    if a is None:
        a = At(); a.kind, a.key, a.data, a.idx, a.group, a.fv, a.h = kind, key, data, len(_AT), group, fv, h
        _AT[(kind, key)] = a
    return a

_MK = {}
_iid = itertools.count()
def gid(x): return x.v
def mk(at, hi, lo):
    if at.group is not None:
        if at.group in groups(hi): hi = assume(hi, at, True)
        if at.group in groups(lo): lo = assume(lo, at, False)
    if hi is lo or hi.v == lo.v: return hi
    key = (at.idx, hi.v, lo.v)
    n = _MK.get(key)
    if n is None and at.kind == 'EQ0' and vanishes(at.data, hi, lo):
        _MK[key] = lo; return lo
    if n is None:
        n = Ite(); n.at, n.hi, n.lo = at, hi, lo
        n.v = H('ite', at.key if isinstance(at.key, tuple) else (at.kind, at.key), hi.v, lo.v)
        n.fv = at.fv | hi.fv | lo.fv
        n.h = max(at.h, hi.h, lo.h)
        n.groups = groups(hi) | groups(lo)
        if at.group is not None: n.groups = n.groups | {at.group}
        n.id = next(_iid)
        _MK[key] = n
    return n
def vanishes(t, hi, lo):
    """hi == lo whenever t == 0 (t a single atom dividing their difference)"""
    if not (isinstance(hi, T) and isinstance(lo, T)) or hi in (TRUE, FALSE, UNDEF) or lo in (TRUE, FALSE, UNDEF): return False
    p = poly(t)
    if len(p) != 1: return False
    (m, _), = p.items()
    if len(m) != 1: return False
    a, b = poly(hi), poly(lo)
    if len(a) + len(b) > 200: return False
    for k in set(a) | set(b):
        if a.get(k, 0) != b.get(k, 0) and m[0] not in k: return False
        if any(_TT[x].op == 'inv' for x in k): return False
    return True
def groups(x): return x.groups if isinstance(x, Ite) else EMPTY

_asm = {}
def assume(x, at, val):
    """drop tests in x that are decided by literal (at,val)"""
    if not isinstance(x, Ite) or at.group not in x.groups: return x
    key = (x.id, at.idx, val)
    r = _asm.get(key)
    if r is None:
        i = implied(at, val, x.at) if x.at.group == at.group else None
        if i is True: r = assume(x.hi, at, val)
        elif i is False: r = assume(x.lo, at, val)
        else: r = mk(x.at, assume(x.hi, at, val), assume(x.lo, at, val))
        _asm[key] = r
    return r

def implied(a, val, b):
    if a is b: return val
    if a.kind == 'LT':   # L < a.data[1]
        ka, kb = a.data[1], b.data[1]
        if val and kb >= ka: return True
        if (not val) and kb <= ka: return False
        return None
    if a.kind == 'IS':   # variant tests on one term
        if val: return False
        return None
    return None

def mkcond(at): return mk(at, TRUE, FALSE)

_ite = {}
def ite(c, a, b):
    """scalar-leaf if-then-else (decision-diagram apply)"""
    if c is TRUE: return a
    if c is FALSE: return b
    if c is UNDEF: return UNDEF
    if a is b or a.v == b.v: return a
    if a is TRUE and b is FALSE: return c
    if not isinstance(c, Ite): raise TypeError('cond %r' % (c,))
    key = (c.id, a.v, b.v)
    r = _ite.get(key)
    if r is not None: return r
    top = c.at
    if isinstance(a, Ite) and a.at.idx < top.idx: top = a.at
    if isinstance(b, Ite) and b.at.idx < top.idx: top = b.at
    def co(x, val):
        if isinstance(x, Ite) and x.at is top: return x.hi if val else x.lo
        return x
    hi = ite(co(c, True), co(a, True), co(b, True))
    lo = ite(co(c, False), co(a, False), co(b, False))
    r = mk(top, hi, lo)
    _ite[key] = r
    return r
def bnot(c): return ite(c, FALSE, TRUE)
def band(a, b): return ite(a, b, FALSE)
def bor(a, b): return ite(a, TRUE, b)
def biff(a, b): return ite(a, b, bnot(b))

def care(v, c):
    """simplify scalar diagram v given that condition c holds (values outside c are irrelevant)"""
    memo = {}
    def go(v, c):
        if c is FALSE: return None
        if c is TRUE or not isinstance(v, Ite): return v
        key = (v.id, c.v)
        if key in memo: return memo[key]
        top = v.at
        if isinstance(c, Ite) and c.at.idx < top.idx: 
            # care atom not in v at this level
            h = go(v, c.hi); l = go(v, c.lo)
            if h is None: r = l
            elif l is None: r = h
            elif h is l or h.v == l.v: r = h
            else: r = mk(c.at, h, l)
        else:
            ch, cl = (c.hi, c.lo) if isinstance(c, Ite) and c.at is top else (c, c)
            h = go(v.hi, ch); l = go(v.lo, cl)
            if h is None: r = l
            elif l is None: r = h
            else: r = mk(top, h, l)
        memo[key] = r
        return r
    r = go(v, c)
    return UNDEF if r is None else r

def vcare(v, c):
    if c is TRUE: return v
    if isinstance(v, (T,)): return v
    if isinstance(v, Ite): return care(v, c)
    if isinstance(v, Agg): return Agg(v.tag, [vcare(f, c) for f in v.fs])
    if isinstance(v, En): return En(v.tag, vcare(v.disc, c), {k: [vcare(f, c) for f in p] for k, p in v.pay.items()})
    if isinstance(v, Seq):
        return Seq([('e', vcare(s[1], c)) if s[0] == 'e' else (('m', vcare(s[1], c), s[2], vcare(s[3], c)) if s[0] == 'm' else (s[0], s[1], vcare(s[2], c))) for s in v.segs], v.ety)
    return v

def strip_undef(v):
    if isinstance(v, Ite):
        h, l = strip_undef(v.hi), strip_undef(v.lo)
        if h is UNDEF: return l
        if l is UNDEF: return h
        return mk(v.at, h, l)
    if isinstance(v, Agg): return Agg(v.tag, [strip_undef(f) for f in v.fs])
    if isinstance(v, En): return En(v.tag, strip_undef(v.disc), {k: [strip_undef(f) for f in p] for k, p in v.pay.items()})
    return v

def lift(f, *vs):
    memo = {}
    def go(vs):
        top = None
        for x in vs:
            if isinstance(x, Ite) and (top is None or x.at.idx < top.idx): top = x.at
        if top is None: return f(*vs)
        key = tuple(x.v if isinstance(x, V) else x for x in vs)
        r = memo.get(key)
        if r is None:
            hi = go(tuple(x.hi if isinstance(x, Ite) and x.at is top else x for x in vs))
            lo = go(tuple(x.lo if isinstance(x, Ite) and x.at is top else x for x in vs))
            r = vite(mkcond(top), hi, lo)
            memo[key] = r
        return r
    return go(tuple(vs))

# ------------------------------------------------------------------ ring arithmetic
def _add(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is ZERO: return b
    if b is ZERO: return a
    return mkT('add', (a, b), ((a.v[0] + b.v[0]) % P, (a.v[1] + b.v[1]) % P), a.fv | b.fv, max(a.h, b.h))
def _mul(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is ONE: return b
    if b is ONE: return a
    if a is ZERO or b is ZERO: return ZERO
    return mkT('mul', (a, b), ((a.v[0] * b.v[0]) % P, (a.v[1] * b.v[1]) % P), a.fv | b.fv, max(a.h, b.h))
def _inv(a):
    if a is UNDEF: return UNDEF
    if a is ZERO: return UNDEF
    return mkT('inv', (a,), (pow(a.v[0], P - 2, P), pow(a.v[1], P - 2, P)), a.fv, a.h)
def scal(x):
    while isinstance(x, Agg) and (len(x.fs) == 1 or x.tag == 'CNum'): x = x.fs[0]
    if not isinstance(x, (T, Ite)): raise TypeError('not scalar: %s' % show(x)[:200])
    return x
def add(a, b): return lift(_add, scal(a), scal(b))
def mul(a, b): return lift(_mul, scal(a), scal(b))
def neg(a): return mul(a, const(-1))
def sub(a, b): return add(a, neg(b))
def inv(a): return lift(_inv, scal(a))
def div(a, b): return mul(a, inv(b))

def isconstval(t):
    """term is a rational constant (both lanes agree)"""
    return t.v[0] == t.v[1]

def poly(t):
    """polynomial form over atoms: {mono(tuple of (atom v)...sorted): coef}; atoms table in _TT"""
    if t._poly is not None: return t._poly
    if t.op == 'const': r = {(): t.args[0]} if t.args[0] else {}
    elif t.op == 'add':
        a, b = poly(t.args[0]), poly(t.args[1])
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + c
            if r[m] == 0: del r[m]
    elif t.op == 'mul':
        a, b = poly(t.args[0]), poly(t.args[1])
        if len(a) * len(b) > 400: r = {(t.v,): 1}
        else:
            r = {}
            for m, c in a.items():
                for n, d in b.items():
                    k = tuple(sorted(m + n))
                    r[k] = r.get(k, 0) + c * d
                    if r[k] == 0: del r[k]
    else: r = {(t.v,): 1}
    t._poly = r
    return r
def frompoly(p):
    r = ZERO
    for m, c in p.items():
        x = const(c)
        for a in m: x = _mul(x, _TT[a])
        r = _add(r, x)
    return r
def intconst(t):
    """python int if t is an integer constant"""
    if isinstance(t, T):
        if t.op == 'const': return t.args[0]
        if t.v[0] == t.v[1] and t.op in ('add', 'mul'):
            p = poly(t)
            if not p: return 0
            if set(p) == {()}: return p[()]
    return None

# ------------------------------------------------------------------ condition atoms
BIG = [False]
def b2n(c):
    """1 if c else 0.  In large instances the value stays one atom, so that a sum of many booleans does not split into all their combinations"""
    if not BIG[0] or not isinstance(c, Ite): return ite(c, ONE, ZERO)
    return mkT('app', ('b2n', c), H('app', 'b2n', (c.v,)), c.fv, c.h)
def onebit(t):
    """t as a function of one boolean: (condition, value if false, value if true)"""
    p = poly(t)
    if len(p) > 6: return None
    at = {a for m in p for a in m}
    if len(at) != 1: return None
    a = _TT[next(iter(at))]
    if a.op != 'app' or a.args[0] != 'b2n': return None
    return a.args[1], p.get((), 0), sum(p.values())
def eq0(x):
    """field element == 0"""
    def f(t):
        if t is UNDEF: return UNDEF
        if t.v == (0, 0): return TRUE
        if isconstval(t): return FALSE
        if BIG[0]:
            o = onebit(t)
            if o: return ite(o[0], boolv(o[2] == 0), boolv(o[1] == 0))
        if t.v[1] == 0 or t.v[0] == 0: key = ('z', t.v)
        else: key = (t.v[0] * pow(t.v[1], P - 2, P)) % P
        return mkcond(atom('EQ0', ('EQ0', key), t, None, t.fv, t.h))
    return lift(f, scal(x))
def feq(a, b): return eq0(sub(a, b))
def bvar(t):
    def f(t):
        if t in (TRUE, FALSE, UNDEF): return t
        return mkcond(atom('B', ('B', t.v), t, None, t.fv, t.h))
    y = t
    while isinstance(y, Agg) and len(y.fs) == 1: y = y.fs[0]
    if isinstance(y, Agg) and y.tag == 'CNum': return eq0(sub(y.fs[0], ONE))
    return lift(f, scal(t))
def _sm_K(x):
    while isinstance(x, Agg) and x.tag != 'CNum' and len(x.fs) == 1: x = x.fs[0]
    if isinstance(x, Agg) and x.tag == 'CNum': return x.fs[1]
    if isinstance(x, Ite): return lift(lambda y: app('K', y), x)
SMART['K'] = _sm_K
SMART['sel'] = lambda c, a, b: vite(c, a, b)
SMART['b2n'] = lambda c: b2n(c)
def _sm_fld(x, i):
    if isinstance(x, Agg): return x.fs[i] if i < len(x.fs) else None
    if isinstance(x, T) and x.op == 'app' and x.args[0] == 'updf': return x.args[3] if x.args[2] == i else app('fld', x.args[1], i)
    if isinstance(x, Ite): return lift(lambda y: app('fld', y, i), x)
SMART['fld'] = _sm_fld
def _sm_pay(x, v, i):
    if isinstance(x, En): return x.pay[v][i] if v in x.pay and i < len(x.pay[v]) else UNDEF
    if isinstance(x, Ite): return lift(lambda y: app('pay', y, v, i), x)
SMART['pay'] = _sm_pay
def natural(t):
    return t.op == 'var' and t.args[0][0] in 'kj' or t.op == 'cank' or t.op == 'app' and t.args[0] in ('len', 'imod', 'bytelen') or t.op == 'sp' and t.args[0].startswith('char:')
def _fits(p):
    """the encoding of a field fills whole words: NUM_BITS <= 64 * words.  1: p >= 0, -1: p <= 0"""
    nb = nl = None
    for m, c in p.items():
        if len(m) != 1: return 0
        t = _TT[m[0]]
        if t.op == 'sp' and t.args[0].startswith('const:NUM_BITS('): nb = (t.args[0][15:-1], c)
        elif t.op == 'app' and t.args[0] == 'nlimbs' and isinstance(t.args[1], T) and t.args[1].op == 'sp': nl = (t.args[1].args[0].split(':', 1)[-1], c)
    if not nb or not nl or nl[0] != nb[0] + '::Repr' and not nb[0].endswith('::Fs'): return 0
    if nl[1] > 0 > nb[1] and nl[1] + 64 * nb[1] >= 0: return 1
    if nl[1] < 0 < nb[1] and nl[1] + 64 * nb[1] <= 0: return -1
    return 0
def lt0(x):
    """integer x < 0, thresholds normalised on the non-constant part"""
    def f(t):
        if t is UNDEF: return UNDEF
        p = dict(poly(t))
        c = p.pop((), 0)
        if not p: return boolv(c < 0)
        if c >= 0 and all(x > 0 for x in p.values()) and all(natural(_TT[a]) for mo in p for a in mo): return FALSE
        if len(p) == 2:
            r = _fits(p)
            if r and c >= 0 and r > 0: return FALSE
            if r and c < 0 and r < 0: return TRUE
        g = 0
        for m in p: g = math.gcd(g, p[m])
        lead = p[min(p)]
        s = 1 if lead > 0 else -1
        L = frompoly({m: s * (k // g) for m, k in p.items()})
        nat = all(s * k > 0 for k in p.values()) and all(natural(_TT[a]) for mo in p for a in mo)
        if s < 0 and nat and c // g + 1 <= 0: return TRUE
        if s > 0:      # g*L + c < 0  <=>  L < -c/g  <=> L < ceil(-c/g)
            th = -(c // g)
            return mkcond(atom('LT', ('LT', L.v, th), (L, th), ('LT', L.v), L.fv, L.h))
        else:          # -g*L + c < 0 <=> L > c/g <=> not (L <= floor(c/g)) <=> not (L < floor(c/g)+1)
            th = c // g + 1
            return bnot(mkcond(atom('LT', ('LT', L.v, th), (L, th), ('LT', L.v), L.fv, L.h)))
    return lift(f, scal(x))
def ilt(a, b): return lt0(sub(a, b))
def ile(a, b): return bnot(lt0(sub(b, a)))
def ieq(a, b): 
    d = sub(a, b)
    return band(bnot(lt0(d)), bnot(lt0(neg(d))))
def isv(t, k, n=None):
    """opaque term t of an enum type is variant k (n variants)"""
    if t is UNDEF: return UNDEF
    c = intconst(t)
    if c is not None: return boolv(c == k)
    return mkcond(atom('IS', ('IS', t.v, k), (t, k), ('IS', t.v), t.fv, t.h))

def isvar(en, k):
    """BDD: enum value is variant k"""
    return lift(lambda d: UNDEF if d is UNDEF else boolv(intconst(d) == k), en.disc) if not (isinstance(en.disc, T)) else (UNDEF if en.disc is UNDEF else boolv(intconst(en.disc) == k))

def vite(c, a, b):
    """if-then-else on arbitrary values"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if BIG[0] and isinstance(a, T) and isinstance(b, T) and isinstance(c, Ite) and c.at.kind == 'B' and c.hi in (TRUE, FALSE) and c.lo in (TRUE, FALSE) \
            and a not in (TRUE, FALSE, UNDEF) and b not in (TRUE, FALSE, UNDEF):
        d = intconst(_add(a, _mul(b, const(-1))))
        if d: return _add(b, _mul(const(d), b2n(c)))
        if c.hi is FALSE: c, a, b = bnot(c), b, a
        return mkT('app', ('sel', c, a, b), H('app', 'sel', (c.v, a.v, b.v)), c.fv | a.fv | b.fv, max(c.h, a.h, b.h))
    if isinstance(a, Agg) and b is UNDEF: b = Agg(a.tag, [UNDEF] * len(a.fs))
    if isinstance(b, Agg) and a is UNDEF: a = Agg(b.tag, [UNDEF] * len(b.fs))
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
        return Agg(a.tag, [vite(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, En) and b is UNDEF: b = En(a.tag, UNDEF, {})
    if isinstance(b, En) and a is UNDEF: a = En(b.tag, UNDEF, {})
    if isinstance(a, En) and isinstance(b, En):
        pay = {}
        for k in set(a.pay) | set(b.pay):
            pa, pb = a.pay.get(k), b.pay.get(k)
            if pa is None or isvar(a, k) is FALSE: pay[k] = pb if pb is not None else pa
            elif pb is None or isvar(b, k) is FALSE: pay[k] = pa
            else: pay[k] = tuple(vite(c, x, y) for x, y in zip(pa, pb))
        return En(a.tag, ite(c, a.disc, b.disc), pay)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.v == b.v: return a
        r = seq_ite(c, a, b)
        if r is not None: return r
    if isinstance(a, Agg) and len(a.fs) == 1 and isinstance(b, (T, Ite)): a = scal(a)
    if isinstance(b, Agg) and len(b.fs) == 1 and isinstance(a, (T, Ite)): b = scal(b)
    if isinstance(a, (T, Ite, Seq)) and isinstance(b, (T, Ite, Seq)): return ite(c, a, b)
    if isinstance(a, Lam) or isinstance(b, Lam): return rawapp('cite', c, a, b)
    # shape mismatch: keep both opaquely
    return ite(c, opaque(a), opaque(b))

def opaque(x):
    if isinstance(x, (T, Ite)): return x
    return mkT('app', ('opq', x), H('opq', x.v), x.fv, x.h)

# ------------------------------------------------------------------ integer facts
FACTS = []     # list of dict-polys known to be >= 0
def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0: del r[m]
    return r
def pnonneg(p):
    """p >= 0 given that every atom is a non-negative integer"""
    return all(c >= 0 for c in p.values())
def prove_ge0(t):
    if not isinstance(t, T): return False
    p = poly(t)
    if pnonneg(p): return True
    fs = FACTS
    ex = []
    for mo, c in p.items():
        if c < 0:
            for a in mo:
                t = _TT[a]
                if t.op == 'app' and t.args[0] == 'idiv' and isinstance(t.args[1], T) and intconst(t.args[2]):
                    ex.append(padd(poly(t.args[1]), poly(_mul(t.args[2], t)), -1))      # x - b*(x/b) >= 0
    for mo, c in p.items():
        for a in mo if len(mo) == 1 else ():
            t = _TT[a]
            if c < 0 and t.op == 'sp' and t.args[0].startswith('const:NUM_BITS('):      # the encoding fills whole words
                n = t.args[0][15:-1]
                for b in [x for m in p for x in m] if n.endswith('::Fs') else ():       # the group order is below the field order (C26)
                    if _TT[b].op == 'app' and _TT[b].args[0] == 'nlimbs': ex.append(padd(poly(_mul(const(64), _TT[b])), poly(t), -1))
                ex.append(padd(poly(_mul(const(64), app('nlimbs', sp('repr:' + n + '::Repr')))), poly(t), -1))
            elif c > 0 and t.op == 'app' and t.args[0] == 'idiv' and intconst(t.args[2]) == 2 and isinstance(t.args[1], T) and t.args[1].op == 'sp' and t.args[1].args[0].startswith('const:NUM_BITS('):
                ex.append(padd(poly(t), {(): 1}, -1))
    if ex: fs = ex + fs
    for f in fs:
        for mlt in (1, 2):
            if pnonneg(padd(p, f, -mlt)): return True
    for f, g in itertools.combinations(fs[:12], 2):
        if pnonneg(padd(padd(p, f, -1), g, -1)): return True
    return False

class facts:
    def __init__(s, *ts): s.n = [poly(t) for t in ts if isinstance(t, T)]
    def __enter__(s): FACTS.extend(s.n)
    def __exit__(s, *a):
        if s.n: del FACTS[-len(s.n):]

def literals(c, out):
    """literals forced by condition c"""
    seen = 0
    while isinstance(c, Ite) and seen < 40:
        seen += 1
        if c.lo is FALSE: out.append((c.at, True)); c = c.hi
        elif c.hi is FALSE: out.append((c.at, False)); c = c.lo
        else: break
def pcfacts(c):
    """>=0 facts implied by condition c"""
    ls = []
    literals(c, ls)
    r = []
    for a, val in ls:
        if a.kind == 'LT':
            L, th = a.data
            r.append(sub(const(th - 1), L) if val else sub(L, const(th)))
    return r

# ------------------------------------------------------------------ sequences
class Seq(V):
    """segs: ('e', value) | ('m', n, k, body) | ('o', term, n)   (element list / map / opaque)"""
    __slots__ = ('segs', 'ety', '_v', '_fv', '_h')
    def __init__(s, segs, ety=None):
        out = []
        for sg in segs:
            if sg[0] == 'm':
                n = intconst(sg[1])
                if n is not None and n <= 8:
                    for i in range(max(n, 0)): out.append(('e', subst(sg[3], {sg[2]: const(i)})))
                    continue
            if sg[0] == 'o':
                n = intconst(sg[2])
                if n is not None and n <= 0: continue
                if n is not None and n <= 8 and ety is not None and EXPAND[0] is not None:
                    for i in range(n): out.append(('e', elem(sg[1], const(i), ety)))
                    continue
            out.append(sg)
        s.segs, s.ety, s._v, s._fv, s._h = tuple(out), ety, None, None, None
    @property
    def length(s):
        r = ZERO; n = 0
        for sg in s.segs:
            if sg[0] == 'e': n += 1
            elif sg[0] == 'm': r = add(r, sg[1])
            else: r = add(r, sg[2])
        return add(r, const(n))
    def all_e(s): return all(g[0] == 'e' for g in s.segs)
    def els(s): return [g[1] for g in s.segs]
    @property
    def h(s):
        if s._h is None:
            hh = 0
            for g in s.segs:
                if g[0] == 'e': hh = max(hh, g[1].h)
                elif g[0] == 'm': hh = max(hh, g[1].h, g[3].h + 1)
                else: hh = max(hh, g[1].h, g[2].h)
            s._h = hh
        return s._h
    @property
    def fv(s):
        if s._fv is None:
            r = EMPTY
            for g in s.segs:
                if g[0] == 'e': r = r | g[1].fv
                elif g[0] == 'm': r = r | g[1].fv | (g[3].fv - {g[2]})
                else: r = r | g[1].fv | g[2].fv
            s._fv = r
        return s._fv
    @property
    def v(s):
        if s._v is None:
            if s.all_e(): s._v = H('els', tuple(x.v for x in s.els()))
            elif len(s.segs) == 1 and s.segs[0][0] == 'o' and s.ety is None:
                s._v = H('oseq', s.segs[0][1].v)
            else:
                n = s.length
                j = var('j')
                with facts(sub(sub(n, ONE), j) if isinstance(n, T) else ZERO):
                    b = seq_get(s, j)
                lam = Lam(j, b)
                s._v = H('seq', n.v, lam.v)
        return s._v
    def __repr__(s): return show(s)

EXPAND = [None]   # hook: expand(term, type) -> Value
def elem(base, i, ety):
    t = rawapp('get', base, i)
    if ety is not None and EXPAND[0] is not None and isinstance(t, T): return EXPAND[0](t, ety)
    if ety is not None and EXPAND[0] is not None and isinstance(t, Ite): return lift(lambda x: EXPAND[0](x, ety), t)
    return t

def seq_get(s, i):
    if isinstance(s, Ite): return lift(lambda x: seq_get(x, i) if isinstance(x, Seq) else rawapp('get', x, i), s)
    if not isinstance(s, Seq): return rawapp('get', s, i)
    if isinstance(i, Ite): return lift(lambda j: seq_get(s, j), i)
    off = ZERO
    segs = s.segs
    res = []   # list of (cond, value) in order, last is default
    for n, g in enumerate(segs):
        rel = sub(i, off)
        last = n == len(segs) - 1
        if g[0] == 'e':
            c = intconst(rel)
            if c is not None and c < 0: pass
            elif c == 0:
                res.append((TRUE, g[1])); break
            elif c is not None and c > 0: pass
            elif prove_ge0(sub(rel, ONE)): pass
            else: res.append((TRUE if last else ile(rel, ZERO), g[1]))
            off = add(off, ONE)
        else:
            ln = g[1] if g[0] == 'm' else g[2]
            if g[0] == 'm': val = lambda g=g, rel=rel: subst(g[3], {g[2]: rel})
            else: val = lambda g=g, rel=rel: elem(g[1], rel, s.ety)
            if isinstance(ln, T) and isinstance(rel, T) and prove_ge0(sub(rel, ln)): pass     # beyond
            elif last or (isinstance(rel, T) and isinstance(ln, T) and prove_ge0(sub(sub(ln, ONE), rel))):
                res.append((TRUE, val())); break
            else: res.append((ilt(rel, ln), val()))
            off = add(off, ln)
    if not res: return rawapp('oob', s.length, i)
    r = res[-1][1]
    for c, v in reversed(res[:-1]): r = vite(c, v, r)
    return r

def peq(a, b): return a is b or a.v == b.v

def seq_slice(s, a, b):
    """s[a..b]"""
    if isinstance(s, Ite): return lift(lambda x: seq_slice(x, a, b), s)
    n = sub(b, a)
    if peq(a, ZERO) and peq(b, s.length): return s
    c = intconst(n) if isinstance(n, T) else None
    if c is not None and c <= 8: return Seq([('e', seq_get(s, add(a, const(i)))) for i in range(max(c, 0))], s.ety)
    # segment aligned?
    off = ZERO; st = None
    offs = [ZERO]
    for g in s.segs:
        off = add(off, ONE if g[0] == 'e' else (g[1] if g[0] == 'm' else g[2]))
        offs.append(off)
    ia = [k for k, o in enumerate(offs) if peq(o, a)]
    ib = [k for k, o in enumerate(offs) if peq(o, b)]
    if ia and ib and ia[0] <= ib[-1]: return Seq(s.segs[ia[0]:ib[-1]], s.ety)
    k = var('k')
    if isinstance(n, T):
        with facts(sub(sub(n, ONE), k)): body = seq_get(s, add(a, k))
    else: body = seq_get(s, add(a, k))
    return Seq([('m', n, k, body)], s.ety)

def seq_concat(*ss):
    return Seq([g for s in ss for g in s.segs], next((s.ety for s in ss if s.ety is not None), None))

def seq_set(s, i, v):
    if isinstance(s, Ite): return lift(lambda x: seq_set(x, i, v), s)
    if not isinstance(s, Seq): return rawapp('upd', s, i, v)
    # direct hit on an element segment
    off = ZERO
    for n, g in enumerate(s.segs):
        rel = sub(i, off)
        if g[0] == 'e':
            if intconst(rel) == 0: return Seq(s.segs[:n] + (('e', v),) + s.segs[n + 1:], s.ety)
            off = add(off, ONE)
        else: off = add(off, g[1] if g[0] == 'm' else g[2])
    k = var('k')
    L = s.length
    with facts(sub(sub(L, ONE), k)): body = seq_get(s, k)
    return Seq([('m', L, k, vite(ieq(k, i), v, body))], s.ety)

def seq_map_range(s, lo, n, k, body):
    """s with s[lo+k] = body(k) for 0<=k<n"""
    L = s.length
    hi = add(lo, n)
    return seq_concat(seq_slice(s, ZERO, lo), Seq([('m', n, k, body)], s.ety), seq_slice(s, hi, L)) if not peq(hi, L) else \
        seq_concat(seq_slice(s, ZERO, lo), Seq([('m', n, k, body)], s.ety))

def seq_ite(c, a, b):
    if a.all_e() and b.all_e() and len(a.segs) == len(b.segs):
        return Seq([('e', vite(c, x[1], y[1])) for x, y in zip(a.segs, b.segs)], a.ety)
    la, lb = a.length, b.length
    ia, ib = intconst(la), intconst(lb)
    if BIG[0] and ia is not None and ib is not None and max(ia, ib) <= 2000:
        n = min(ia, ib)
        segs = [('e', vite(c, seq_get(a, const(i)), seq_get(b, const(i)))) for i in range(n)]
        if ia != ib:
            k = var('k')
            segs.append(('m', ite(c, const(ia - n), const(ib - n)), k, vite(c, seq_get(a, add(k, const(n))), UNDEF) if ia > ib else vite(c, UNDEF, seq_get(b, add(k, const(n))))))
        return Seq(segs, a.ety or b.ety)
    if peq(la, lb):
        k = var('k')
        with facts(sub(sub(la, ONE), k)): x, y = seq_get(a, k), seq_get(b, k)
        return Seq([('m', la, k, vite(c, x, y))], a.ety)
    k = var('k')
    return Seq([('m', ite(c, la, lb), k, vite(c, seq_get(a, k), seq_get(b, k)))], a.ety or b.ety)

def _sm_get(base, i):
    if isinstance(base, Seq) or (isinstance(base, Ite) ): return seq_get(base, i)
SMART['get'] = _sm_get
def _sm_len(base):
    if isinstance(base, Seq): return base.length
    if isinstance(base, Ite): return lift(lambda b: app('len', b), base)
SMART['len'] = _sm_len

# ------------------------------------------------------------------ integer operators
def _powconst(c, n):
    r = ONE
    b = c
    while n:
        if n & 1: r = mul(r, b)
        b = mul(b, b); n >>= 1
    return r
def _sm_pow(b, e):
    if isinstance(e, Ite): return lift(lambda x: app('pow', b, x), e)
    p = dict(poly(e))
    c = p.pop((), 0)
    if b is ONE: return ONE
    if not p:
        if abs(c) > 4096: return None
        return _powconst(b, c) if c >= 0 else inv(_powconst(b, -c))
    if c:
        f = _powconst(b, c) if c > 0 else inv(_powconst(b, -c))
        return mul(f, app('pow', b, frompoly(p)))
    if len(p) > 1:
        r = ONE
        for m in sorted(p): r = mul(r, app('pow', b, frompoly({m: p[m]})))
        return r
    (m, k), = p.items()
    if k < 0: return inv(app('pow', b, frompoly({m: -k})))
    if k > 1: return _powconst(app('pow', b, frompoly({m: 1})), k)
    return None
SMART['pow'] = _sm_pow
def _sm_idiv(a, b):
    if isinstance(a, Ite) or isinstance(b, Ite): return lift(lambda x, y: app('idiv', x, y), a, b)
    x, y = intconst(a), intconst(b)
    if b is ONE: return a
    if x is not None and y: return const(x // y)
    if y:
        p = poly(a)
        q = {m: c for m, c in p.items() if c % y == 0}
        r = {m: c for m, c in p.items() if c % y}
        if q and (not r or True):
            base = frompoly({m: c // y for m, c in q.items()})
            if not r: return base
            rc = r.get((), 0)
            if set(r) == {()} and 0 <= rc < y: return base
            if set(r) != set(p): return add(base, app('idiv', frompoly(r), b))
SMART['idiv'] = _sm_idiv
def _sm_irem(a, b):
    if isinstance(a, Ite) or isinstance(b, Ite): return lift(lambda x, y: app('irem', x, y), a, b)
    x, y = intconst(a), intconst(b)
    if x is not None and y: return const(x % y)
    if y:
        p = poly(a)
        r = {m: c % y for m, c in p.items() if c % y}
        if set(r) <= {()}: return const(r.get((), 0))
        if r != p: return app('irem', frompoly(r), b)
        return sub(a, mul(b, app('idiv', a, b)))
    return sub(a, mul(b, app('idiv', a, b)))
SMART['irem'] = _sm_irem
def _comm(name):
    def f(a, b):
        if isinstance(a, T) and isinstance(b, T):
            x, y = intconst(a), intconst(b)
            if name == 'min':
                if a.v == b.v: return a
                if x is not None and y is not None: return const(min(x, y))
                if prove_ge0(sub(b, a)): return a
                if prove_ge0(sub(a, b)): return b
            if name == 'max':
                if a.v == b.v: return a
                if x is not None and y is not None: return const(max(x, y))
            if name == 'iand':
                if x is not None and y is not None: return const(x & y)
                for p, q in ((x, b), (y, a)):
                    if p is not None and p > 0 and (p & (p + 1)) == 0: return app('irem', q, const(p + 1))
            if name == 'ior' and x is not None and y is not None: return const(x | y)
            if name == 'ixor' and x is not None and y is not None: return const(x ^ y)
            if a.v > b.v: return rawapp(name, b, a)
    return f
for _n in ('min', 'max', 'iand', 'ior', 'ixor'): SMART[_n] = _comm(_n)
def shl(a, b): return mul(a, app('pow', const(2), b))
def shr(a, b): return app('idiv', a, app('pow', const(2), b))

def _leaves(x):
    out = []
    seen = set()
    def go(y):
        if isinstance(y, Ite):
            if y.id in seen: return
            seen.add(y.id); go(y.hi); go(y.lo)
        else: out.append(y)
    go(x)
    return out
def _sm_sum(n, lam):
    k, body = lam.k, lam.body
    c = intconst(n) if isinstance(n, T) else None
    if c is not None and c <= 8:
        r = ZERO
        for i in range(max(c, 0)): r = add(r, subst(body, {k: const(i)}))
        return r
    if k not in body.fv: return mul(n, body)
    if isinstance(body, Ite):
        x = body
        while isinstance(x, Ite): x = x.hi if not (x.hi.v == (0, 0)) else x.lo
        if x is UNDEF or x.op == 'ref': return None
        p = poly(x)
        c = p[min(p)] if p else 1
        if abs(c) != 1 and any(isinstance(y, T) and y.op not in ('const', 'add', 'mul', 'inv', 'app', 'sp', 'var', 'fold') for y in _leaves(body)): return None
        if c == 1: return None
        return mul(const(c), rawapp('sum', n, Lam(k, div(body, const(c)))))
    p = poly(body)
    out = ZERO
    need = False
    rest = {}
    for m, c in p.items():
        dep = tuple(a for a in m if k in _TT[a].fv)
        ind = tuple(a for a in m if k not in _TT[a].fv)
        if ind or c != 1: need = True
        rest.setdefault(dep, []).append((ind, c))
    if len(p) > 1: need = True
    if not need: return None
    for dep, l in rest.items():
        coef = frompoly({tuple(sorted(i)): c for i, c in l}) if len({tuple(sorted(i)) for i, c in l}) == len(l) else None
        if coef is None:
            coef = ZERO
            for i, c in l: coef = add(coef, frompoly({i: c}))
        if not dep: out = add(out, mul(n, coef))
        else:
            b = frompoly({dep: 1})
            out = add(out, mul(coef, rawapp('sum', n, Lam(k, b))))
    return out
SMART['sum'] = _sm_sum
def _sm_all(n, lam):
    if lam.body is TRUE: return TRUE
    c = intconst(n) if isinstance(n, T) else None
    if c is not None and c <= 8:
        r = TRUE
        for i in range(max(c, 0)): r = band(r, lam(const(i)))
        return r
    if lam.k not in lam.body.fv: return bor(ile(n, ZERO), lam.body) if not (lam.body is FALSE) else ile(n, ZERO)
    return bvar(rawapp('all', n, lam))
SMART['all'] = _sm_all

def _sm_firstk(n, lam):
    if lam.body is FALSE: return n
    if lam.body is TRUE: return ZERO
    if lam.k not in lam.body.fv: return ite(lam.body, ZERO, n)
SMART['firstk'] = _sm_firstk

# ------------------------------------------------------------------ folds (unsolved recurrences)
class Fold:
    """state recurrence: phi_i(0)=init_i, phi_i(k+1)=step_i[phi(k),k]"""
    __slots__ = ('phis', 'inits', 'steps', 'k', 'colors', 'fv', 'h', 'shape')
    def __init__(s, phis, inits, steps, k):
        s.phis, s.inits, s.steps, s.k = tuple(phis), tuple(inits), tuple(steps), k
        s.fv = (fvs(s.inits) | fvs(s.steps)) - set(s.phis) - {k}
        s.h = max(hts(s.inits), hts(s.steps)) + 1
        ck = cank(s.h)
        cols = [H('phi', i.v) for i in s.inits]
        # dependency closure of every component: only that determines its value
        ps = set(s.phis)
        dep = {p: {p} | (st.fv & ps) for p, st in zip(s.phis, s.steps)}
        ch = True
        while ch:
            ch = False
            for p in s.phis:
                n = set().union(*[dep[q] for q in dep[p]])
                if n != dep[p]: dep[p] = n; ch = True
        final = {}
        for r in range(len(phis) + 1):
            m = {k: ck}
            for p, c in zip(s.phis, cols):
                t = _TT.get(('col', c, s.h))
                if t is None:
                    t = T('col', (c,), H('col', c, s.h), EMPTY, 0); _TT[('col', c, s.h)] = t; _TT[t.v] = t
                m[p] = t
            cols = [H('fold', i.v, subst(st, m).v) for i, st in zip(s.inits, s.steps)]
            for p, c in zip(s.phis, cols):
                if len(dep[p]) == r: final[p] = c
        cols = [final[p] for p in s.phis]
        s.colors = cols
def foldat(F, i, k):
    if isinstance(k, Ite): return lift(lambda x: foldat(F, i, x), k)
    if k is ZERO and isinstance(F.inits[i], (T, Ite)): return F.inits[i]
    v = H('foldat', F.colors[i], k.v)
    return mkT('fold', (F, i, k), v, F.fv | k.fv, max(F.h, k.h))

# ------------------------------------------------------------------ substitution
def subst(x, m, full=False):
    if not m: return x
    ks = frozenset(m)
    memo = {}
    def goat(a):
        r = memo.get(a)
        if r is not None: return r
        if not full and not (a.fv & ks): r = mkcond(a)
        elif a.kind == 'EQ0': r = eq0(go(a.data))
        elif a.kind == 'B': r = bvar(go(a.data))
        elif a.kind == 'LT': r = lt0(sub(go(a.data[0]), const(a.data[1])))
        elif a.kind == 'IS':
            t = go(a.data[0])
            if isinstance(t, En): r = isvar(t, a.data[1])
            else: r = lift(lambda y: isv(y, a.data[1]), t)
        else: raise TypeError(a.kind)
        memo[a] = r
        return r
    def go(x):
        if not full and not (x.fv & ks): return x
        if isinstance(x, T):
            if x in ks: return m[x]
            if x.op in ('const', 'sp', 'var', 'cank', 'undef'): return x
        key = id(x)
        r = memo.get(key)
        if r is not None: return r[0]
        r = go1(x)
        memo[key] = (r, x)
        return r
    def go1(x):
        if isinstance(x, T):
            op = x.op
            if op == 'add': return add(go(x.args[0]), go(x.args[1]))
            if op == 'mul': return mul(go(x.args[0]), go(x.args[1]))
            if op == 'inv': return inv(go(x.args[0]))
            if op == 'app': return app(x.args[0], *[go(a) if isinstance(a, V) else a for a in x.args[1:]])
            if op == 'fold':
                F, i, k = x.args
                if F.fv & ks:
                    fk = ('F', id(F))
                    G = memo.get(fk)
                    if G is None:
                        sh = (set(F.phis) | {F.k}) & ks
                        st_ = [subst(a, {u: w for u, w in m.items() if u not in sh}) for a in F.steps] if sh else [go(a) for a in F.steps]
                        G = Fold(F.phis, [go(a) for a in F.inits], st_, F.k)
                        memo[fk] = G
                    F = G
                return foldat(F, i, go(k))
            if op == 'ref': return REFSUB[0](x, go)
            if op == 'clo': return x
            raise TypeError(op)
        if isinstance(x, Ite): return vite(goat(x.at), go(x.hi), go(x.lo))
        if isinstance(x, Agg): return Agg(x.tag, [go(f) for f in x.fs])
        if isinstance(x, En): return En(x.tag, go(x.disc), {k: [go(f) for f in p] for k, p in x.pay.items()})
        if isinstance(x, Seq):
            segs = []
            for g in x.segs:
                if g[0] == 'e': segs.append(('e', go(g[1])))
                elif g[0] == 'm': segs.append(('m', go(g[1]), g[2], under(g[2], g[3])))
                else:
                    b = go(g[1])
                    if isinstance(b, Seq): segs.extend(b.segs)
                    elif isinstance(b, Ite) or b is not g[1]:
                        # base replaced
                        if isinstance(b, T): segs.append(('o', b, go(g[2])))
                        else:
                            k = var('k'); n = go(g[2])
                            segs.append(('m', n, k, seq_get(b, k)))
                    else: segs.append(('o', b, go(g[2])))
            return Seq(segs, x.ety)
        if isinstance(x, Lam): return Lam(x.k, under(x.k, x.body))
        raise TypeError(type(x))
    def under(k, body):
        # bound variable shadows
        if k in ks: return subst(body, {a: b for a, b in m.items() if a is not k})
        return go(body)
    return go(x)
REFSUB = [None]

# ------------------------------------------------------------------ printing
def show(x, d=6):
    if d < 0: return '…'
    if isinstance(x, T):
        if x.op == 'const': return str(x.args[0])
        if x.op == 'sp': return x.args[0]
        if x.op == 'var': return x.args[0]
        if x.op == 'cank': return 'κ%d' % x.args[0]
        if x.op == 'add':
            b = x.args[1]
            return '(%s + %s)' % (show(x.args[0], d - 1), show(b, d - 1))
        if x.op == 'mul': return '%s*%s' % (show(x.args[0], d - 1), show(x.args[1], d - 1))
        if x.op == 'inv': return '1/%s' % show(x.args[0], d - 1)
        if x.op == 'app':
            n = x.args[0]
            n = n if isinstance(n, str) else str(n)
            return '%s(%s)' % (n, ', '.join(show(a, d - 1) if isinstance(a, V) else str(a) for a in x.args[1:]))
        if x.op == 'fold':
            F, i, k = x.args
            return 'fold{%s←%s; init %s}@%s' % (show(F.phis[i]), show(F.steps[i], d - 2), show(F.inits[i], d - 2), show(k, d - 1))
        if x.op == 'ref': return '&%s' % (x.args,)
        if x.op == 'clo': return 'closure'
        if x.op == 'col': return 'φ'
        return x.op
    if isinstance(x, Ite): return '{%s ? %s : %s}' % (show_at(x.at, d - 1), show(x.hi, d - 1), show(x.lo, d - 1))
    if isinstance(x, Agg): return '%s(%s)' % (str(x.tag).split('::')[-1], ', '.join(show(f, d - 1) for f in x.fs))
    if isinstance(x, En): return '%s#%s%s' % (str(x.tag).split('::')[-1], show(x.disc, d - 1), {k: [show(f, d - 2) for f in p] for k, p in x.pay.items() if p})
    if isinstance(x, Seq):
        o = []
        for g in x.segs:
            if g[0] == 'e': o.append(show(g[1], d - 1))
            elif g[0] == 'm': o.append('[%s]_{%s<%s}' % (show(g[3], d - 1), show(g[2]), show(g[1], d - 1)))
            else: o.append('*%s[%s]' % (show(g[1], d - 1), show(g[2], d - 1)))
        return '⟨%s⟩' % ', '.join(o)
    if isinstance(x, Lam): return 'λ%s.%s' % (show(x.k), show(x.body, d - 1))
    return repr(x)
def show_at(a, d=5):
    if a.kind == 'EQ0': return '%s==0' % show(a.data, d)
    if a.kind == 'B': return show(a.data, d)
    if a.kind == 'LT': return '%s<%d' % (show(a.data[0], d), a.data[1])
    if a.kind == 'IS': return '%s is #%d' % (show(a.data[0], d), a.data[1])
