"""Value-numbering abstract interpreter over THIR.

One pass over the typed syntax tree of a function computes, for every result, memory location and
recorded effect, a value number (terms.py) as a function of the parameters.  Branches are joined
(decision diagrams), loops are summarised by recurrence solving, calls are inlined or replaced by
the contract of the layer.  No path is enumerated and nothing is executed.
"""
import sys, re, itertools
from terms import *
import terms as TM
from db import DB, unify, strip_generics
sys.setrecursionlimit(100000)

class Unsup(Exception): pass
class Diverges(Unsup): pass          # a loop at constant sizes went on for the whole bound without any way out

OPT, RES, ORD, CFL = 'core::option::Option', 'core::result::Result', 'core::cmp::Ordering', 'core::ops::control_flow::ControlFlow'
BUILTIN_ENUMS = {OPT: [0, 1], RES: [1, 1], CFL: [1, 1], ORD: [0, 0, 0]}

def none(): return En(OPT, ZERO, {0: (), 1: (UNDEF,)})
def some(v): return En(OPT, ONE, {0: (), 1: (v,)})
def option(c, v): return En(OPT, ite(c, ONE, ZERO), {0: (), 1: (v,)})
def ok(v): return En(RES, ZERO, {0: (v,), 1: (ERR,)})
def err(v): return En(RES, ONE, {0: (UNDEF,), 1: (v,)})

# ------------------------------------------------------------------ references
_loc = itertools.count(1)
MEM = {}        # symbolic memory: loc -> (term, type)
MEMTY = {}
def newloc(): return next(_loc)
OSLOC = newloc()
def memloc(term, ty):
    l = ('m', term.v)
    if l not in MEM: MEM[l] = (term, ty)
    return l
def pathv(path): return tuple(tuple(x.v if isinstance(x, V) else x for x in p) for p in path)
def mkref(loc, path=()):
    ts = [x for p in path for x in p if isinstance(x, V)]
    if isinstance(loc, tuple) and loc in MEM: ts = ts + [MEM[loc][0]]
    return mkT('ref', (loc, path), H('ref', loc, pathv(path)), fvs(ts), hts(ts))
def _refsub(x, go):
    loc, path = x.args
    if isinstance(loc, tuple) and loc in MEM:
        t, ty = MEM[loc]
        t2 = go(t)
        if t2 is not t:
            if isinstance(t2, Ite): return lift(lambda y: mkref(memloc(y, ty), path) if y.op != 'ref' else y, t2)
            if isinstance(t2, T) and t2.op == 'ref': return mkref(t2.args[0], normpath(t2.args[1] + path))
            loc = memloc(t2, ty)
    path = tuple(tuple(go(y) if isinstance(y, V) else y for y in p) for p in path)
    ites = [y for p in path for y in p if isinstance(y, Ite)]
    if ites:
        def f(*ys):
            it = iter(ys)
            return mkref(loc, tuple(tuple(next(it) if isinstance(y, Ite) else y for y in p) for p in path))
        return lift(f, *ites)
    return mkref(loc, path)
TM.REFSUB[0] = _refsub

def normpath(path):
    out = []
    for p in path:
        if out and out[-1][0] == 'sl':
            a = out[-1][1]
            if p[0] == 'i': out[-1] = ('i', add(a, p[1])); continue
            if p[0] == 'sl': out[-1] = ('sl', add(a, p[1]), add(a, p[2])); continue
        out.append(p)
    return tuple(out)

def mix_isconst(t): return intconst(t)

# ------------------------------------------------------------------ state
class St:
    __slots__ = ('store', 'pc', 'full', 'eff', 'exits', 'pan', 'wc', 'kv')
    def __init__(s):
        s.store = {}; s.pc = TRUE; s.full = TRUE; s.eff = []; s.exits = []; s.pan = FALSE; s.wc = {}; s.kv = ()
    def branch(s, c):
        r = St()
        r.store = dict(s.store); r.full = band(s.full, c); r.wc = s.wc; r.kv = s.kv
        return r

class Exit:
    __slots__ = ('pc', 'target', 'val', 'store')
    def __init__(s, pc, target, val, store): s.pc, s.target, s.val, s.store = pc, target, val, store

class Frame:
    def __init__(s, body, env): s.body, s.env, s.vars, s.ups = body, env, {}, {}

PRIMINT = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128'}
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}

def short(d): return d.rsplit('::', 1)[-1]

PURE_CRATES = ('core', 'std', 'alloc', 'ff_ce', 'ff', 'pairing_ce', 'pairing', 'num_bigint', 'num_traits', 'num_integer', 'typenum')
def pure_call(d, argtys):
    def ok(t):
        if t is None: return False
        if t[0] == 'ref': return not t[2] and ok(t[1])
        if t[0] in ('p', 'par', 'proj'): return True
        if t[0] in ('slice', 'array'): return ok(t[1])
        if t[0] == 'tup': return all(map(ok, t[1]))
        if t[0] == 'adt': return not any(w in t[1] for w in ('cell::', 'sync::', '::io', 'rc::')) and all(ok(a) for a in t[2] if a[0] not in ('c', 'o'))
        return False
    ps = d.split('::')
    return ps[0] in PURE_CRATES and not any(w in ps for w in ('io', 'cell', 'process', 'thread', 'sync', 'env', 'fs', 'net', 'time', 'ops', 'iter')) and all(map(ok, argtys))
class Engine:
    def __init__(self, db, mode='sem', contracts=None, maxdepth=60, inst=None, unroll=0):
        self.inst = {t.v: n if isinstance(n, V) else const(n) for t, n in inst.items()} if inst else {}   # sizes fixed in an instance
        self.unroll = unroll
        self.db = db
        self.mode = mode              # 'sem': CNum is an abstract scalar; 'raw': CNum is the plain struct
        self.contracts = dict(contracts or {})
        self.world = self.contracts.pop('__world__', {})     # outside state that is part of what a function does
        self.depth = 0
        self.maxdepth = maxdepth
        self.ncalls = 0
        self.unknown = set()          # external callees treated as uninterpreted
        self.impure = set()           # those of them that might do more than return a value
        self.analysed = set()         # bodies inlined
        self.notes = []
        self.W = bvar(sp('witness'))
        self.steps = 0
        self.stack = []
        self.normcache = {}
        TM.EXPAND[0] = self.expand
    def activate(self): TM.EXPAND[0] = self.expand

    # ------------------------------------------------------------ types
    def norm(self, t, env=None):
        key = (t, tuple(sorted(env.items())) if env else None)
        r = self.normcache.get(key)
        if r is None:
            r = self.normcache[key] = self._norm(t, env or {})
        return r
    def _norm(self, t, env):
        k = t[0]
        if k == 'par': return env.get(t[1], t)
        if k in ('p', 'c', 'o', 'fnptr'): return t
        if k == 'adt': return ('adt', t[1], tuple(self._norm(a, env) for a in t[2]))
        if k == 'ref': return ('ref', self._norm(t[1], env), t[2])
        if k in ('ptr', 'slice'): return (k, self._norm(t[1], env))
        if k == 'array':
            n = t[2]
            if n in env: n = env[n][1]
            return ('array', self._norm(t[1], env), n)
        if k == 'tup': return ('tup', tuple(self._norm(a, env) for a in t[1]))
        if k == 'fndef': return ('fndef', t[1], t[2], tuple(self._norm(a, env) for a in t[3]))
        if k == 'closure': return ('closure', t[1], tuple(self._norm(a, env) for a in t[2]))
        if k == 'proj':
            args = tuple(self._norm(a, env) for a in t[3])
            tr, n = t[1], t[2]
            im, e2 = self.db.find_impl(tr, args)
            if im and n in im['types']:
                r = self._norm(im['types'][n], e2)
                if r != t: return r
            s = args[0]
            if tr.endswith('::ConstraintSystem') and n == 'F' and s[0] == 'par': return ('par', 'F')
            if tr.endswith('::JubJubParams') and n == 'Fr' and s[0] == 'par': return ('par', 'F')
            if tr.endswith('::Circuit') and n == 'F' and s[0] == 'par': return ('par', 'F')
            return ('proj', tr, n, args)
        return t

    def tkey(self, t):
        """canonical printable name of a type (for uninterpreted constants)"""
        k = t[0]
        if k == 'par': return t[1]
        if k == 'p': return t[1]
        if k == 'adt': return short(t[1]) + ('<%s>' % ','.join(self.tkey(a) for a in t[2]) if t[2] else '')
        if k == 'ref': return '&' + self.tkey(t[1])
        if k == 'proj': return '%s::%s' % (','.join(self.tkey(a) for a in t[3]), t[2])
        if k == 'tup': return '(%s)' % ','.join(self.tkey(a) for a in t[1])
        if k in ('slice', 'array'): return '[%s]' % self.tkey(t[1])
        if k == 'c': return t[1]
        return k

    def iscnum(self, t): return t[0] == 'adt' and t[1].endswith('circuit::num::CNum')
    def iscbool(self, t): return t[0] == 'adt' and t[1].endswith('circuit::bool::CBool')
    def isfield(self, t):
        if t[0] == 'par' : return t[1] not in ('CS', 'J', 'L', 'R', 'W', 'S', 'I')
        if t[0] == 'proj': return t[2] in ('F', 'Fr', 'Fs', 'Fq', 'Fqe', 'Fqk')
        if t[0] == 'adt': return short(t[1]) in ('Fr', 'Fs', 'Fq', 'Fq2', 'Fq6', 'Fq12')
        return False

    def expand(self, t, ty):
        """symbolic value of type ty named by scalar term t"""
        if isinstance(t, Ite): return lift(lambda x: self.expand(x, ty), t)
        if not isinstance(t, T) or t is UNDEF or t is ERR: return t
        k = ty[0]
        if k == 'p':
            if ty[1] == 'bool': return bvar(t)
            return self.inst.get(t.v, t)
        if k == 'ref':
            if t.op == 'ref': return t
            return mkref(memloc(t, ty[1]))
        if k == 'tup':
            return Agg('()', [self.expand(rawapp('fld', t, i), a) for i, a in enumerate(ty[1])]) if len(ty[1]) != 1 else Agg('()', [self.expand(t, ty[1][0])])
        if k == 'array':
            if str(ty[2]).isdigit():
                n = int(ty[2])
                if n <= 8: return Seq([('e', self.expand(rawapp('get', t, const(i)), ty[1])) for i in range(n)], ty[1])
                return Seq([('o', t, const(n))], ty[1])
            return Seq([('o', t, sp('N:' + str(ty[2])))], ty[1])
        if k == 'slice': return Seq([('o', t, self.lenof(t))], ty[1])
        if k == 'adt':
            d, a = ty[1], ty[2]
            n = short(d)
            if d.endswith('::vec::Vec') or d.endswith('LinkedList') or d.endswith('VecDeque'): return Seq([('o', t, self.lenof(t))], a[0])
            if d.endswith('boxed::Box'): return self.expand(t, a[0])
            if n == 'PhantomData': return UNIT
            if d.endswith('sizedvec::SizedVec'):
                return Agg(d, [Seq([('o', t, self.usize(a[1]))], a[0]), UNIT])
            if d == OPT:
                return En(OPT, ite(isv(t, 1), ONE, ZERO), {0: (), 1: (self.expand(rawapp('pay', t, 1, 0), a[0]),)})
            if d == RES:
                return En(RES, ite(isv(t, 1), ONE, ZERO), {0: (self.expand(rawapp('pay', t, 0, 0), a[0]),), 1: (ERR,)})
            if d == ORD:
                return En(ORD, ite(isv(t, 0), ZERO, ite(isv(t, 1), ONE, const(2))), {0: (), 1: (), 2: ()})
            if n == 'RefCell': return Agg('RefCell', [self.expand(t, a[0])])
            if self.mode == 'sem':
                if self.iscnum(ty): return mkcnum(t, bvar(rawapp('K', t)))
                if self.iscbool(ty): return Agg(d, [mkcnum(b2n(bvar(t)), bvar(rawapp('K', t)))])
                if d.endswith('circuit::num::Index'): return t
            ad = self.db.adts.get(d)
            if ad and (d.startswith('fawkes_crypto') or d.startswith('harness') or d.startswith('core::ops::range')) and ad['kind'] != 'union':
                env = dict(zip(ad['g'], a))
                if ad['kind'] == 'struct':
                    fs = ad['v'][0]['f']
                    if self.isfield(ty): return t
                    if len(fs) == 1: return Agg(d, [self.expand(t, self.norm(fs[0][1], env))])
                    return Agg(d, [self.expand(rawapp('fld', t, i), self.norm(f[1], env)) for i, f in enumerate(fs)])
                nv = len(ad['v'])
                disc = const(nv - 1) if nv else ZERO
                for i in range(nv - 2, -1, -1): disc = ite(isv(t, i), const(i), disc)
                return En(d, disc, {i: tuple(self.expand(rawapp('pay', t, i, j), self.norm(f[1], env)) for j, f in enumerate(v['f'])) for i, v in enumerate(ad['v'])})
            return t
        return t
    def lenof(self, t):
        r = rawapp('len', t)
        return self.inst.get(r.v, r)
    def usize(self, l):
        if l[0] == 'adt':
            n = typenum(l)
            if n is not None: return const(n)
        return self.named('USIZE:' + self.tkey(l))
    def named(self, n):
        t = sp(n)
        return self.inst.get(t.v, t)

    def coerce(self, v, ty):
        """give an opaque scalar the structure of its type"""
        if isinstance(v, T):
            if v.op in ('ref', 'const') or v in (TRUE, FALSE, UNDEF, ERR): return v
            if ty[0] == 'adt' and v.op == 'app' and False: return v
            return self.expand(v, ty)
        if isinstance(v, Ite) and ty[0] in ('adt', 'tup', 'slice', 'array') :
            if any(isinstance(x, T) and x.op not in ('const', 'ref') and x is not UNDEF for x in leaves(v)):
                return self.expand(v, ty)
        return v

    # ------------------------------------------------------------ memory
    def load(self, st, loc):
        v = st.store.get(loc)
        if v is None:
            if loc in MEM:
                t, ty = MEM[loc]
                if isinstance(loc, tuple) and loc[0] == 'm': v = self.expand(t, ty)
            if v is None: return UNDEF
        return v
    def getp(self, v, path, i=0):
        for p in path[i:]:
            k = p[0]
            if v is UNDEF: return UNDEF
            if isinstance(v, Ite) and k != 'f': pass
            if k == 'f':
                if isinstance(v, Agg):
                    v = self.aggfield(v, p[2])
                elif isinstance(v, En): v = v.pay[p[1]][p[2]] if p[1] in v.pay and p[2] < len(v.pay[p[1]]) else UNDEF
                elif isinstance(v, Ite): v = lift(lambda x: self.getp(x, (p,)), v)
                else: v = self.field_of(v, p[1], p[2])
            elif k == 'i': v = seq_get(v, p[1])
            elif k == 'sl': v = seq_slice(v, p[1], p[2])
            else: raise Unsup('path')
        return v
    def aggfield(self, v, f):
        if v.tag == 'CNum': return self.cnum_field(v, f)
        return v.fs[f]
    def cnum_field(self, v, f):
        if f == 0: return option(bor(self.W, v.fs[1]), v.fs[0])
        if f == 1: return rawapp('lc', v.fs[0])
        return mkref(memloc(sp('cs'), ('par', 'CS')))
    def field_of(self, t, var, f):
        if f == 0 and (t.op in ('const', 'add', 'mul', 'inv', 'fold')): return t      # wrapper around a scalar
        if t.op == 'app' and t.args[0] == 'updf': return t.args[3] if t.args[2] == f else self.field_of(t.args[1], var, f)
        return rawapp('fld', t, f)
    def setp(self, v, path, nv):
        if not path: return nv
        p = path[0]
        k = p[0]
        if k == 'f':
            if isinstance(v, Agg):
                if v.tag == 'CNum': raise Unsup('write to abstract CNum field')
                fs = list(v.fs); fs[p[2]] = self.setp(fs[p[2]], path[1:], nv)
                return Agg(v.tag, fs)
            if isinstance(v, En):
                pay = dict(v.pay); l = list(pay[p[1]]); l[p[2]] = self.setp(l[p[2]], path[1:], nv); pay[p[1]] = tuple(l)
                return En(v.tag, v.disc, pay)
            if isinstance(v, Ite): return lift(lambda x: self.setp(x, path, nv), v)
            if p[2] == 0 and isinstance(v, T) and v.op in ('const', 'add', 'mul', 'inv', 'fold'): return self.setp(v, path[1:], nv)
            return rawapp('updf', v, p[2], self.setp(self.field_of(v, p[1], p[2]), path[1:], nv))
        if k == 'i':
            if len(path) == 1: return seq_set(v, p[1], nv)
            return seq_set(v, p[1], self.setp(seq_get(v, p[1]), path[1:], nv))
        if k == 'sl':
            if not isinstance(v, Seq): raise Unsup('slice write to opaque')
            subv = seq_slice(v, p[1], p[2])
            subn = self.setp(subv, path[1:], nv)
            if not isinstance(subn, Seq): raise Unsup('slice write')
            return seq_concat(seq_slice(v, ZERO, p[1]), subn, seq_slice(v, p[2], v.length))
        raise Unsup('path')

    def deref(self, st, v):
        """reference value -> list of (cond, loc, path)"""
        if isinstance(v, T):
            if v.op == 'ref': return [(TRUE, v.args[0], v.args[1])]
            if v is UNDEF: return []
            return [(TRUE, memloc(v, ('o', 'opaque')), ())]
        if isinstance(v, Ite):
            out = []
            def go(x, c):
                if isinstance(x, Ite):
                    go(x.hi, band(c, mkcond(x.at))); go(x.lo, band(c, bnot(mkcond(x.at))))
                elif x is not UNDEF:
                    for (c2, l, p) in self.deref(st, x): out.append((band(c, c2), l, p))
            go(v, TRUE)
            m = {}
            for c, l, p in out:
                key = (l, pathv(p))
                if key in m: m[key] = (bor(m[key][0], c), l, p)
                else: m[key] = (c, l, p)
            out = list(m.values())
            if len(out) == 1: out = [(TRUE, out[0][1], out[0][2])]
            return out
        # value stored inline (by-value temporary)
        l = newloc(); st.store[l] = v
        return [(TRUE, l, ())]
    def rd(self, st, place):
        r = None
        for c, l, p in reversed(place):
            x = self.getp(self.load(st, l), p)
            r = x if r is None else vite(c, x, r)
        return UNDEF if r is None else r
    def wr(self, st, place, v):
        for c, l, p in place:
            old = self.load(st, l)
            if c is TRUE: st.store[l] = self.setp(old, p, v)
            else: st.store[l] = self.setp(old, p, vite(c, v, self.getp(old, p)))
    def ext(self, place, *elems): return [(c, l, normpath(p + tuple(elems))) for c, l, p in place]
    def refto(self, place):
        r = None
        for c, l, p in reversed(place):
            x = mkref(l, p)
            r = x if r is None else ite(c, x, r)
        return UNDEF if r is None else r
    def tmp(self, st, v):
        l = newloc(); st.store[l] = v
        return [(TRUE, l, ())]
    def cont(self, st, v):
        """content behind (possibly nested) references"""
        while isinstance(v, T) and v.op == 'ref' or isinstance(v, Ite) and any(isinstance(x, T) and x.op == 'ref' for x in leaves(v)):
            v = self.rd(st, self.deref(st, v))
        return v
    def contt(self, st, v, ty):
        while ty[0] == 'ref':
            v = self.coerce(self.rd(st, self.deref(st, v)), ty[1]); ty = ty[1]
        return v

    def deep(self, st, v, d=0):
        """value with every reference replaced by what it points to"""
        if d > 12: raise Unsup('deep value')
        if isinstance(v, T):
            if v.op == 'ref':
                if isinstance(v.args[0], tuple) and v.args[0][0] == 'm' and not v.args[1] and v.args[0] not in st.store:
                    return MEM[v.args[0]][0] if False else self.deep(st, self.rd(st, self.deref(st, v)), d + 1)
                return self.deep(st, self.rd(st, self.deref(st, v)), d + 1)
            return v
        if isinstance(v, Ite):
            if any(isinstance(x, T) and x.op == 'ref' for x in leaves(v)):
                return self.deep(st, self.rd(st, self.deref(st, v)), d + 1)
            return v
        if isinstance(v, Agg):
            if isinstance(v.tag, tuple) and v.tag[0] == 'clo': return self.closure_digest(st, v)
            return Agg(v.tag, [self.deep(st, f, d + 1) for f in v.fs])
        if isinstance(v, En): return En(v.tag, v.disc, {k: [self.deep(st, f, d + 1) for f in p] for k, p in v.pay.items()})
        if isinstance(v, Seq):
            segs = []
            for g in v.segs:
                if g[0] == 'e': segs.append(('e', self.deep(st, g[1], d + 1)))
                elif g[0] == 'm': segs.append(('m', g[1], g[2], self.deep(st, g[3], d + 1)))
                else:
                    if v.ety is not None and hasref(v.ety):
                        k = var('k')
                        segs.append(('m', g[2], k, self.deep(st, elem(g[1], k, v.ety), d + 1)))
                    else: segs.append(g)
            return Seq(segs, v.ety)
        return v
    def closure_digest(self, st, v):
        b = self.db.bodies.get(v.tag[1])
        if b is None: return rawapp('closure', sp(v.tag[1]))
        n = len(b['params'])
        vs = [var('a') for _ in range(n)]
        env = dict(v.tag[2])
        s = st.branch(TRUE)
        args = [self.expand(x, self.norm(p['ty'], env)) for x, p in zip(vs, b['params'])]
        r = self.deep(s, self.call_closure(s, v, args))
        for x in vs: r = Lam(x, r)
        if s.eff: raise Unsup('effectful closure passed to an unmodelled function')
        return r

    # ------------------------------------------------------------ control
    def cond(self, st, c):
        if isinstance(c, Agg): c = scal(c)
        if isinstance(c, T) and c not in (TRUE, FALSE, UNDEF): c = bvar(c)
        c = strip_undef(c)
        if c is UNDEF: c = FALSE
        if isinstance(c, Ite) and st.full is not TRUE:
            if band(st.full, c) is FALSE: return FALSE
            if band(st.full, bnot(c)) is FALSE: return TRUE
        return c
    def fork(self, st, c, ft, fe):
        c = self.cond(st, c)
        if c is TRUE: return ft(st)
        if c is FALSE: return fe(st)
        nc = bnot(c)
        s1, s2 = st.branch(c), st.branch(nc)
        wc0 = st.wc
        s1.wc = dict(wc0)
        with facts(*pcfacts(c)): v1 = ft(s1)
        s2.wc = dict(s1.wc)
        with facts(*pcfacts(nc)): v2 = fe(s2)
        st.wc = s2.wc
        v1, v2 = self.pair_wires(s1, v1, s2, v2)
        return self.join(st, c, s1, v1, s2, v2)
    def pair_wires(self, s1, v1, s2, v2):
        """the n-th wire allocated without a witness in one branch is the n-th wire of the other branch"""
        def al(s): return [(g, pl) for g, kd, pl in s.eff if kd == 'alloc']
        a1, a2 = al(s1), al(s2)
        if not a1 or len(a1) != len(a2): return v1, v2
        def blank(a): return all(g is TRUE and pl[0].op == 'var' for g, pl in a)
        if blank(a1) and not blank(a2): s1, v1, a1, s2, v2, a2, sw = s2, v2, a2, s1, v1, a1, True
        else: sw = False
        if blank(a2) and not blank(a1) and all(g is TRUE and pl[1] is TRUE for g, pl in a1):
            m = {y[0]: x[0] for (_, x), (_, y) in zip(a1, a2)}
            v2 = subst(v2, m)
            s2.store = {l: subst(x, m) for l, x in s2.store.items()}
            for e in s2.exits: e.val = subst(e.val, m); e.store = {l: subst(x, m) for l, x in e.store.items()}
            s2.eff = [(g, kd, self.effsub(pl, m)) for g, kd, pl in s2.eff]
        return (v2, v1) if sw else (v1, v2)
    def join(self, st, c, s1, v1, s2, v2):
        nc = bnot(c)
        p1, p2 = band(c, s1.pc), band(nc, s2.pc)
        for cc, s in ((c, s1), (nc, s2)):
            for e in s.exits:
                e.pc = band(band(st.pc, cc), e.pc)
                if e.pc is not FALSE: st.exits.append(e)
            for (g, kind, pl) in s.eff:
                g = band(band(st.pc, cc), g)
                if g is FALSE: continue
                if kind == 'alloc' and cc is nc:
                    for j, (g2, k2, q2) in enumerate(st.eff):
                        if k2 == 'alloc' and q2[0] is pl[0]:
                            st.eff[j] = (bor(g2, g), k2, (pl[0], ite(c, q2[1], pl[1]))); break
                    else: st.eff.append((g, kind, pl))
                    continue
                st.eff.append((g, kind, pl))
        pd = bor(band(c, s1.pan), band(nc, s2.pan))
        st.pan = bor(st.pan, band(st.pc, pd))
        both = bor(p1, p2)
        npc = bor(both, pd)
        if p1 is FALSE and p2 is FALSE:
            st.pc = FALSE; st.store = s1.store if s1.pan is FALSE else s2.store
            st.full = FALSE
            return UNDEF
        if p1 is FALSE: st.store = s2.store; r = v2
        elif p2 is FALSE: st.store = s1.store; r = v1
        else:
            sel = care(p1, both)
            st.store = self.mergestore(sel, s1.store, s2.store)
            r = vite(sel, v1, v2)
        st.pc = band(st.pc, npc)
        if both is not TRUE: st.full = band(st.full, both)
        return r
    def mergestore(self, sel, a, b):
        if a is b: return a
        out = dict(b)
        for l, x in a.items():
            y = b.get(l)
            if y is None:
                if isinstance(l, tuple) and l in MEM: y = self.expand(*MEM[l])
                else: out[l] = x; continue
            if x is y: continue
            out[l] = vite(sel, x, y)
        for l in b:
            if l not in a and isinstance(l, tuple) and l in MEM:
                out[l] = vite(sel, self.expand(*MEM[l]), b[l])
        return out
    def panic(self, st, c=TRUE):
        c = self.cond(st, c)
        if c is FALSE: return
        st.pan = bor(st.pan, band(st.pc, c))
        if c is TRUE: st.pc = FALSE; st.full = FALSE
        else: st.full = band(st.full, bnot(c))
    def inside(self, st, v, i, end=False):
        """an index (or, with end, a range bound) that is certainly past the end of v panics"""
        if not isinstance(v, Seq) or not isinstance(i, T) or not isinstance(v.length, T) or st.pc is FALSE: return
        a, n = intconst(i), intconst(v.length)
        if a is not None and n is not None: bad = a < 0 or (a > n if end else a >= n)
        else:
            d = sub(i, v.length)
            bad = prove_ge0(sub(d, ONE) if end else d)
        if bad: self.panic(st)
    def emit(self, st, kind, *pl):
        st.eff.append((st.pc, kind, tuple(pl)))
    def merge_exits(self, st, exits, norm_val):
        """join exits with the normal end of st; returns value; st.pc becomes total"""
        alts = [(e.pc, e.store, e.val) for e in exits if e.pc is not FALSE]
        if st.pc is not FALSE: alts.append((st.pc, st.store, norm_val))
        if not alts: return UNDEF
        tot = FALSE
        for a in alts: tot = bor(tot, a[0])
        pc, store, v = alts[-1]
        for p, s2, v2 in reversed(alts[:-1]):
            sel = care(p, bor(p, pc))
            store = self.mergestore(sel, s2, store)
            v = vite(sel, v2, v)
            pc = bor(pc, p)
        st.store = store; st.pc = tot
        return v

    # ------------------------------------------------------------ functions
    def call_body(self, st, body, env, args, ups=None):
        if self.depth > self.maxdepth: raise Unsup('inlining depth at ' + body['id'])
        if self.stack.count(body['id']) >= 2: raise Unsup('recursion in ' + body['id'])
        self.analysed.add(body['id']); self.ncalls += 1
        self.depth += 1; self.stack.append(body['id'])
        fr = Frame(body, env)
        if ups: fr.ups = ups
        sv = (st.pc, st.exits, st.eff, st.pan, st.full)
        st.pc, st.exits, st.eff, st.pan = TRUE, [], [], FALSE
        try:
            for p, a in zip(body['params'], args):
                if p['p'] is None: continue
                c = self.bind(st, fr, p['p'], self.tmp(st, a))
            v = self.ev(st, fr, body['e'])
        finally:
            self.depth -= 1; self.stack.pop()
        rets = [e for e in st.exits if e.target == 'ret']
        rest = [e for e in st.exits if e.target != 'ret']
        if rest: raise Unsup('dangling exit')
        if rets: v = self.merge_exits(st, rets, v)
        alive = st.pc is not FALSE
        eff = st.eff
        pc0, ex0, ef0, pn0, full0 = sv
        for g, kind, pl in eff:
            g = band(pc0, g)
            if g is not FALSE: ef0.append((g, kind, pl))
        pan = st.pan
        st.exits, st.eff = ex0, ef0
        st.pan = bor(pn0, band(pc0, pan))
        st.pc = pc0 if alive else FALSE
        st.full = (band(full0, bnot(pan)) if pan is not FALSE else full0) if alive else FALSE
        return v

    def closure_ups(self, st, clo):
        b = self.db.bodies[clo.tag[1]]
        ups = {}
        for vid, byref, cap in zip(b['ups'], b['upref'], clo.fs):
            if byref: ups[vid] = self.deref(st, cap)
            else:
                l = newloc(); st.store[l] = cap
                ups[vid] = [(TRUE, l, ())]
        return b, ups
    def call_closure(self, st, clo, args, place=None):
        b, ups = self.closure_ups(st, clo)
        np = len(b['params'])
        args = list(args)
        if len(args) < np: args = [UNIT] * (np - len(args)) + args
        elif len(args) > np: args = args[len(args) - np:]
        r = self.call_body(st, b, dict(clo.tag[2]), args, ups)
        if place is not None and not all(b['upref']):
            caps = list(clo.fs)
            for i, (vid, byref) in enumerate(zip(b['ups'], b['upref'])):
                if not byref: caps[i] = self.rd(st, ups[vid])
            if any(x is not y for x, y in zip(caps, clo.fs)): self.wr(st, place, Agg(clo.tag, caps))
        return r
    def call_value(self, st, f, args, ret_ty=None):
        place = None
        n = 0
        while isinstance(f, T) and f.op == 'ref' and n < 8:
            place = self.deref(st, f); f = self.rd(st, place); n += 1
        if isinstance(f, Agg) and isinstance(f.tag, tuple):
            if f.tag[0] == 'clo': return self.call_closure(st, f, args, place)
            if f.tag[0] == 'fn':
                _, fty, res = f.tag
                return self.call_fn(st, fty, res, args, ret_ty, None)
            if f.tag[0] == 'ctor':
                _, d, vi = f.tag
                if vi is None: return Agg(d, args)
                nv = self.variants(d)
                return En(d, const(vi), {i: (tuple(args) if i == vi else (UNDEF,) * nv[i]) for i in range(len(nv))})
        if isinstance(f, Ite): raise Unsup('conditional callee')
        return self.opaque(st, 'call', ('call',), [f] + list(args), [None] * (len(args) + 1), ret_ty)
    def variants(self, d):
        if d in BUILTIN_ENUMS: return BUILTIN_ENUMS[d]
        a = self.db.adts.get(d)
        if a is None: raise Unsup('unknown enum ' + d)
        return [len(v['f']) for v in a['v']]

    def opaque(self, st, name, key, args, argtys, ret_ty, tsub=()):
        """uninterpreted function of the deep contents of its arguments"""
        dargs = [dropk(self.deep(st, a)) for a in args]
        full = (name,) + tuple(tsub)
        nm = '/'.join(str(x) for x in full)
        for i, (a, t) in enumerate(zip(args, argtys)):
            if t is not None and t[0] == 'ref' and t[2]:
                pl = self.deref(st, a)
                self.wr(st, pl, self.outval(nm, i, dargs, t[1], self.rd(st, pl)))
        r = rawapp(nm, *dargs)
        if ret_ty is None: return r
        if ret_ty == ('tup', ()): return UNIT
        if ret_ty == ('p', '!'):
            self.panic(st); return UNDEF
        return self.expand(r, ret_ty)
    def outval(self, nm, i, dargs, ty, old):
        t = rawapp('out', nm, i, *dargs)
        if ty[0] == 'ref' and ty[1][0] == 'slice':     # &mut &[T]: the cursor moves
            return mkref(memloc(t, ty[1]))
        if isinstance(old, Seq) and ty[0] in ('slice', 'array'): return Seq([('o', t, old.length)], old.ety)
        return self.expand(t, ty)

    def key_of(self, d, p):
        s = strip_generics(p)
        s = re.sub(r"<impl \[[^\]]*\]>", 'slice', s)
        s = re.sub(r"<impl (?:&'?\w* ?)?([\w]+)[^>]*>", r'\1', s)
        parts = s.split('::')
        return '::'.join(parts[-2:])

    def call_fn(self, st, fty, res, args, ret_ty, argtys, sp_=None):
        self.steps += 1
        if self.steps > 400000: raise Unsup('step budget')
        d, p, targs = fty[1], fty[2], fty[3]
        rid, renv = None, None
        if res is not None: rid = res[0]
        body = self.db.bodies.get(rid) if rid else None
        if body is not None: renv = dict(zip(body['g'], res[1]))
        if body is None or rid == d:
            tr, nm = d.rsplit('::', 1)
            im, e2 = self.db.find_impl(tr, targs)
            if im is not None and nm in im['fns']:
                rid = im['fns'][nm]; body = self.db.bodies.get(rid)
                if body is not None:
                    renv = dict(e2)
                    own = [g for g in body['g'] if g not in im['g']]
                    ta = targs[len(im['a']):]
                    if own: renv.update(zip(own, ta[-len(own):]))
            elif body is None and d in self.db.bodies:
                rid = d; body = self.db.bodies[d]; renv = dict(zip(body['g'], targs))
        if argtys is None: argtys = [None] * len(args)
        ctx = Ctx(self, st, d, p, targs, rid, body, args, argtys, ret_ty)
        for key in self.contract_keys(ctx):
            f = self.contracts.get(key)
            if f is not None:
                if isinstance(f, str): return self.opaque(st, f, None, args, argtys, ret_ty)
                r = f(ctx)
                if r is not NotImplemented: return r
        if body is not None and '{closure' not in body['id'].rsplit('::', 1)[-1]:
            return self.call_body(st, body, renv, args)
        import models
        for key in ctx.model_keys():
            f = models.M.get(key)
            if f is not None:
                r = f(ctx)
                if r is not NotImplemented: return r
        # unknown external function
        nm = self.key_of(d, p)
        self.unknown.add(nm)
        if not pure_call(d, argtys): self.impure.add(nm)
        ts = tuple(self.tkey(t) for t in targs if concrete(t))
        return self.opaque(st, 'ext:' + nm, None, args, argtys, ret_ty, ts)

    def contract_keys(self, ctx):
        out = []
        if ctx.body is not None:
            s = strip_generics(ctx.body['p'])
            s = s.split('::', 1)[1] if '::' in s else s
            out.append(s)
        tn = '::'.join(ctx.d.split('::')[-2:])
        ts = [short(peel(t)[1]) if peel(t)[0] == 'adt' else (peel(t)[1] if peel(t)[0] in ('par', 'p') else peel(t)[0]) for t in ctx.targs]
        if ts:
            out.append(tn + '@' + ','.join(ts[:2]))
            out.append(tn + '@' + ts[0])
        out.append(tn)
        if self.mode == 'raw' or self.world: out += list(ctx.model_keys())
        return out

    # ------------------------------------------------------------ patterns
    def bind(self, st, fr, pat, place):
        """bind pattern variables; returns match condition"""
        k = pat['k']
        if k == 'Wild': return TRUE
        if k == 'Bind':
            if pat['ref']: v = self.refto(place)
            else: v = self.coerce(self.rd(st, place), self.norm(pat['ty'], fr.env))
            l = newloc(); st.store[l] = v
            fr.vars[pat['v']] = l
            if pat['sub']: return self.bind(st, fr, pat['sub'], place)
            return TRUE
        if k == 'Leaf':
            c = TRUE
            self.shape(st, place, self.norm(pat['ty'], fr.env))
            for i, sp_ in pat['f']: c = band(c, self.bind(st, fr, sp_, self.ext(place, ('f', 0, i))))
            return c
        if k == 'Variant':
            self.shape(st, place, self.norm(pat['ty'], fr.env))
            v = self.rd(st, place)
            if v is UNDEF: return FALSE
            if not isinstance(v, En): raise Unsup('variant test on %s' % show(v)[:80])
            c = isvar(v, pat['v'])
            for i, sp_ in pat['f']: c = band(c, self.bind(st, fr, sp_, self.ext(place, ('f', pat['v'], i))))
            return strip_undef(c)
        if k in ('Deref', 'DerefP'):
            ty = self.norm(pat['ty'], fr.env)
            if ty[0] == 'adt' and ty[1].endswith('Box'): return self.bind(st, fr, pat['a'], place)
            return self.bind(st, fr, pat['a'], self.deref(st, self.coerce(self.rd(st, place), ty)))
        if k == 'ConstP':
            v = self.coerce(self.rd(st, place), self.norm(pat['ty'], fr.env))
            return self.eq_const(v, pat, self.norm(pat['ty'], fr.env))
        if k == 'Or':
            c = FALSE
            base = None
            for a in pat['a']:
                saved = dict(fr.vars)
                c1 = self.bind(st, fr, a, place)
                if base is not None:
                    for vid, l in fr.vars.items():
                        if vid in base and base[vid] != l: st.store[l] = vite(c, st.store[base[vid]], st.store[l])
                base = dict(fr.vars)
                c = bor(c, c1)
            return c
        if k == 'Slice':
            v = self.rd(st, place)
            if not isinstance(v, Seq): raise Unsup('slice pattern')
            n = v.length
            pre, suf = pat['pre'], pat['suf']
            m = len(pre) + len(suf)
            c = ieq(n, const(m)) if pat['sl'] is None else ile(const(m), n)
            for i, q in enumerate(pre): c = band(c, self.bind(st, fr, q, self.ext(place, ('i', const(i)))))
            for i, q in enumerate(suf): c = band(c, self.bind(st, fr, q, self.ext(place, ('i', add(n, const(i - len(suf)))))))
            if pat['sl'] is not None: c = band(c, self.bind(st, fr, pat['sl'], self.ext(place, ('sl', const(len(pre)), sub(n, const(len(suf)))))))
            return c
        if k == 'Range':
            v = self.rd(st, place)
            m = re.match(r"^(-?\d+)?[_a-z0-9]*(\.\.=|\.\.)(-?\d+)?", pat['s'])
            if not m: raise Unsup('range pattern ' + pat['s'])
            c = TRUE
            if m.group(1): c = band(c, ile(const(int(m.group(1))), v))
            if m.group(3): c = band(c, ile(v, const(int(m.group(3)))) if m.group(2) == '..=' else ilt(v, const(int(m.group(3)))))
            return c
        raise Unsup('pattern ' + k)
    def shape(self, st, place, ty):
        v = self.rd(st, place)
        if isinstance(v, Ite) and all(isinstance(x, Seq) or x is UNDEF for x in leaves(v)):
            import models
            self.wr(st, place, models.seq_of_ite(v))
            return
        if isinstance(v, (T, Ite)) and v is not UNDEF:
            n = self.coerce(v, ty)
            if n is not v and not isinstance(n, (T,)) : self.wr(st, place, n)
    def eq_const(self, v, pat, ty):
        while ty[0] == 'ref': ty = ty[1]
        if ty == ('p', 'bool'):
            t = pat['v'] in ('1', 1, 'true') or pat['s'] == 'true'
            return v if t else bnot(v)
        if pat['v'] is not None and ty[0] == 'p' and ty[1] in PRIMINT | {'char'}:
            n = int(pat['v'])
            if ty[1].startswith('i') and n >> (WIDTH[ty[1]] - 1): n -= 1 << WIDTH[ty[1]]
            return ieq(v, const(n))
        return bvar(rawapp('eqconst', v, sp(str(pat['s']))))

    # ------------------------------------------------------------ expressions
    def place(self, st, fr, e):
        k = e['k']
        if k == 'Var':
            l = fr.vars.get(e['v'])
            if l is None:
                if e['v'] in fr.ups: return fr.ups[e['v']]
                raise Unsup('unbound variable %s in %s' % (e['v'], fr.body['id']))
            return [(TRUE, l, ())]
        if k == 'Upvar':
            if e['v'] in fr.ups: return fr.ups[e['v']]
            if e['v'] in fr.vars: return [(TRUE, fr.vars[e['v']], ())]
            raise Unsup('unbound upvar')
        if k == 'Field':
            pl = self.place(st, fr, e['l'])
            self.shape(st, pl, self.norm(e['l']['ty'], fr.env))
            return self.ext(pl, ('f', e['v'], e['f']))
        if k == 'Index':
            pl = self.place(st, fr, e['l'])
            self.shape(st, pl, self.norm(e['l']['ty'], fr.env))
            i = scal(self.ev(st, fr, e['i']))
            self.inside(st, self.rd(st, pl), i)
            return self.ext(pl, ('i', i))
        if k == 'Deref':
            ty = self.norm(e['a']['ty'], fr.env)
            if ty[0] == 'adt' and ty[1].endswith('Box'): return self.place(st, fr, e['a'])
            return self.deref(st, self.coerce(self.ev(st, fr, e['a']), ty))
        return self.tmp(st, self.ev(st, fr, e))

    def ev(self, st, fr, e):
        if st.pc is FALSE: return UNDEF
        return getattr(self, 'e_' + e['k'])(st, fr, e)
    def ty(self, fr, e): return self.norm(e['ty'], fr.env)

    def _pl(self, st, fr, e): return self.coerce(self.rd(st, self.place(st, fr, e)), self.ty(fr, e))
    e_Var = e_Upvar = e_Field = e_Index = e_Deref = _pl
    def e_Blk(self, st, fr, e):
        b = e['b']
        r = self.block(st, fr, b)
        if b['tb']:
            ex = [x for x in st.exits if x.target == b['sc']]
            if ex:
                st.exits = [x for x in st.exits if x.target != b['sc']]
                r = self.merge_exits(st, ex, r)
        return r
    def block(self, st, fr, b, i=0):
        ss = b['s']
        while i < len(ss):
            s = ss[i]
            if st.pc is FALSE: return UNDEF
            if s['k'] == 'Expr': self.ev(st, fr, s['e'])
            else:
                if s['i'] is None:
                    self.declare(st, fr, s['p'])
                elif s['el'] is None:
                    v = self.ev(st, fr, s['i'])
                    if st.pc is FALSE: return UNDEF
                    self.bind(st, fr, s['p'], self.tmp(st, v))
                else:
                    v = self.ev(st, fr, s['i'])
                    if st.pc is FALSE: return UNDEF
                    pl = self.tmp(st, v)
                    c = self.bind(st, fr, s['p'], pl)
                    el = s['el']
                    i0 = i
                    return self.fork(st, c, lambda s2: self.block(s2, fr, b, i0 + 1), lambda s2: (self.block(s2, fr, el) if el['k'] == 'Block' else self.ev(s2, fr, el)))
            i += 1
        if b['e'] is not None: return self.ev(st, fr, b['e'])
        return UNIT
    def declare(self, st, fr, p):
        if p['k'] == 'Bind':
            l = newloc(); st.store[l] = UNDEF; fr.vars[p['v']] = l
        else: raise Unsup('uninitialised pattern')
    def e_If(self, st, fr, e):
        c = self.evcond(st, fr, e['c'])
        if st.pc is FALSE: return UNDEF
        return self.fork(st, c, lambda s: self.ev(s, fr, e['t']), lambda s: self.ev(s, fr, e['e']) if e['e'] else UNIT)
    def evcond(self, st, fr, e):
        if e['k'] == 'LetE':
            pl = self.place(st, fr, e['e'])
            return self.bind(st, fr, e['p'], pl)
        if e['k'] == 'Log' and has_let(e):
            # let chains: bindings of the left part are needed by the right part
            c = self.evcond(st, fr, e['l'])
            box = {}
            def rt(s):
                return self.evcond(s, fr, e['r'])
            return self.fork(st, c, rt, lambda s: FALSE)
        return self.cond(st, self.ev(st, fr, e))
    def e_LetE(self, st, fr, e): return self.evcond(st, fr, e)
    def e_Log(self, st, fr, e):
        if has_let(e): return self.evcond(st, fr, e)
        c = self.cond(st, self.ev(st, fr, e['l']))
        if e['op'] == 'And': return self.fork(st, c, lambda s: self.ev(s, fr, e['r']), lambda s: FALSE)
        return self.fork(st, c, lambda s: TRUE, lambda s: self.ev(s, fr, e['r']))
    def e_Match(self, st, fr, e):
        pl = self.place(st, fr, e['s'])
        if st.pc is FALSE: return UNDEF
        self.shape(st, pl, self.norm(e['s']['ty'], fr.env))
        arms = e['arms']
        def go(s, i):
            if i >= len(arms):
                s.pc = FALSE
                return UNDEF
            a = arms[i]
            c = self.bind(s, fr, a['p'], pl)
            if i == len(arms) - 1 and a['g'] is None: c = TRUE
            if a['g'] is not None:
                g = a['g']
                # the guard is evaluated under the pattern condition
                holder = {}
                def gt(s2):
                    return self.evcond(s2, fr, g)
                c = self.fork(s, c, gt, lambda s2: FALSE)
            return self.fork(s, c, lambda s2: self.ev(s2, fr, a['b']), lambda s2: go(s2, i + 1))
        return go(st, 0)
    def e_Call(self, st, fr, e):
        fty = self.norm(e['fty'], fr.env)
        if fty[0] == 'fndef':
            args = []
            for a in e['a']:
                args.append(self.ev(st, fr, a))
                if st.pc is FALSE: return UNDEF
            res = None
            if e['res'] is not None: res = (e['res']['d'], tuple(self.norm(x, fr.env) for x in e['res']['a']))
            return self.call_fn(st, fty, res, args, self.ty(fr, e), [self.norm(a['ty'], fr.env) for a in e['a']], e['sp'])
        f = self.ev(st, fr, e['f'])
        args = [self.ev(st, fr, a) for a in e['a']]
        if st.pc is FALSE: return UNDEF
        return self.call_value(st, f, args, self.ty(fr, e))
    def e_Zst(self, st, fr, e):
        t = self.ty(fr, e)
        if t[0] == 'fndef':
            d = t[1]
            m = re.search(r'\{ctor#?\d*\}|::\{constructor#0\}', d)
            c = self.ctor_of(t)
            if c: return Agg(c, ())
            res = None
            if e['res'] is not None: res = (e['res']['d'], tuple(self.norm(x, fr.env) for x in e['res']['a']))
            return Agg(('fn', t, res), ())
        return UNIT
    def ctor_of(self, t):
        d, p = t[1], t[2]
        if 'ctor' not in d and '{constructor' not in d: return None
        base = re.sub(r'::\{(ctor|constructor)[^}]*\}$', '', d)
        if base in self.db.adts: return ('ctor', base, None)
        par, nm = base.rsplit('::', 1)
        if par in (OPT, RES): return ('ctor', par, {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1}[nm])
        a = self.db.adts.get(par)
        if a:
            for i, v in enumerate(a['v']):
                if v['n'] == nm: return ('ctor', par, i)
        return None
    def e_Never(self, st, fr, e):
        self.ev(st, fr, e['a'])
        if st.pc is not FALSE:
            st.pc = FALSE
        return UNDEF
    def e_Coerce(self, st, fr, e):
        return self.ev(st, fr, e['a'])
    def e_Cast(self, st, fr, e):
        v = self.ev(st, fr, e['a'])
        a, b = self.norm(e['a']['ty'], fr.env), self.ty(fr, e)
        return self.cast(v, a, b)
    def cast(self, v, a, b):
        if a == b: return v
        if a[0] == 'p' and b[0] == 'p':
            x, y = a[1], b[1]
            if x == 'bool': return b2n(v)
            if x in WIDTH and y in WIDTH:
                if x[0] == 'u' and (WIDTH[y] >= WIDTH[x] and y[0] == 'u' or WIDTH[y] > WIDTH[x]): return v
                if x[0] == 'i' and y[0] == 'i' and WIDTH[y] >= WIDTH[x]: return v
                c = intconst(v)
                if c is not None:
                    c %= 1 << WIDTH[y]
                    if y[0] == 'i' and c >> (WIDTH[y] - 1): c -= 1 << WIDTH[y]
                    return const(c)
                if x[0] == 'u' and y[0] == 'u': return app('irem', v, const(1 << WIDTH[y]))
                return lift(lambda t: app('cast', '%s->%s' % (x, y), t), v)
        return v
    def e_Bin(self, st, fr, e):
        a = self.ev(st, fr, e['l']); b = self.ev(st, fr, e['r'])
        if st.pc is FALSE: return UNDEF
        return self.binop(e['op'], a, b, self.norm(e['l']['ty'], fr.env))
    def binop(self, op, a, b, ty):
        if ty == ('p', 'bool'):
            a, b = scal(a), scal(b)
            if op in ('Eq',): return biff(a, b)
            if op in ('Ne', 'BitXor'): return bnot(biff(a, b))
            if op == 'BitAnd': return band(a, b)
            if op == 'BitOr': return bor(a, b)
        a, b = scal(a), scal(b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if op in ('Add', 'AddWithOverflow', 'AddUnchecked'): return add(a, b)
        if op == 'Sub': return sub(a, b)
        if op == 'Mul': return mul(a, b)
        if op == 'Div': return app('idiv', a, b) if unsigned(ty) else app('sdiv', a, b)
        if op == 'Rem': return app('irem', a, b) if unsigned(ty) else app('srem', a, b)
        if op == 'Shl': return shl(a, b)
        if op == 'Shr': return shr(a, b)
        if op == 'BitAnd': return lift(lambda x, y: app('iand', x, y), a, b)
        if op == 'BitOr': return lift(lambda x, y: app('ior', x, y), a, b)
        if op == 'BitXor': return lift(lambda x, y: app('ixor', x, y), a, b)
        if op == 'Lt': return ilt(a, b)
        if op == 'Le': return ile(a, b)
        if op == 'Gt': return ilt(b, a)
        if op == 'Ge': return ile(b, a)
        if op in ('Eq', 'Ne'):
            if ty[0] == 'p' and ty[1] in PRIMINT | {'char'}: r = ieq(a, b)
            else: r = lift(lambda x, y: bvar(app('eq', x, y)), a, b)
            return r if op == 'Eq' else bnot(r)
        raise Unsup('binop ' + op)
    def e_Un(self, st, fr, e):
        a = self.ev(st, fr, e['a'])
        if st.pc is FALSE: return UNDEF
        if e['op'] == 'Neg': return neg(a)
        if self.ty(fr, e) == ('p', 'bool'): return bnot(self.cond(st, a) if isinstance(a, T) else a)
        t = self.ty(fr, e)
        if t[0] == 'p' and t[1] in WIDTH: return sub(const(-1 if t[1][0] == 'i' else (1 << WIDTH[t[1]]) - 1), a)
        return lift(lambda x: app('bitnot', x), a)
    def e_Borrow(self, st, fr, e): return self.refto(self.place(st, fr, e['a']))
    def e_Assign(self, st, fr, e):
        v = self.ev(st, fr, e['r'])
        if st.pc is FALSE: return UNDEF
        self.wr(st, self.place(st, fr, e['l']), v)
        return UNIT
    def e_AssignOp(self, st, fr, e):
        v = self.ev(st, fr, e['r'])
        pl = self.place(st, fr, e['l'])
        if st.pc is FALSE: return UNDEF
        op = e['op'].replace('Assign', '')
        self.wr(st, pl, self.binop(op, self.rd(st, pl), v, self.norm(e['l']['ty'], fr.env)))
        return UNIT
    def e_Break(self, st, fr, e):
        v = self.ev(st, fr, e['v']) if e['v'] else UNIT
        if st.pc is FALSE: return UNDEF
        st.exits.append(Exit(st.pc, e['sc'], v, st.store))
        st.store = dict(st.store)
        st.pc = FALSE
        return UNDEF
    def e_Continue(self, st, fr, e):
        st.exits.append(Exit(st.pc, 'cont:' + e['sc'], UNIT, st.store))
        st.store = dict(st.store)
        st.pc = FALSE
        return UNDEF
    def e_Return(self, st, fr, e):
        v = self.ev(st, fr, e['v']) if e['v'] else UNIT
        if st.pc is FALSE: return UNDEF
        st.exits.append(Exit(st.pc, 'ret', v, st.store))
        st.store = dict(st.store)
        st.pc = FALSE
        return UNDEF
    def e_Repeat(self, st, fr, e):
        v = self.ev(st, fr, e['v'])
        t = self.ty(fr, e)
        n = t[2] if t[0] == 'array' else e['n']
        n = const(int(n)) if str(n).isdigit() else sp('N:' + str(n))
        return Seq([('m', n, var('k'), v)], t[1])
    def e_Array(self, st, fr, e):
        t = self.ty(fr, e)
        return Seq([('e', self.ev(st, fr, a)) for a in e['a']], t[1])
    def e_Tuple(self, st, fr, e):
        if not e['a']: return UNIT
        return Agg('()', [self.ev(st, fr, a) for a in e['a']])
    def e_Adt(self, st, fr, e):
        d = e['d']
        fs = {}
        for i, x in e['fs']: fs[i] = self.ev(st, fr, x)
        if st.pc is FALSE: return UNDEF
        ad = self.db.adts.get(d)
        if d in BUILTIN_ENUMS or (ad and ad['kind'] == 'enum'):
            nv = self.variants(d)
            if d == RES and e['v'] == 1: fs = {0: ERR}
            return En(d, const(e['v']), {i: (tuple(fs[j] for j in range(nv[i])) if i == e['v'] else (UNDEF,) * nv[i]) for i in range(len(nv))})
        n = len(ad['v'][0]['f']) if ad else (max(fs) + 1 if fs else 0)
        if e.get('base'):
            b = self.ev(st, fr, e['base'])
            for i in range(n):
                if i not in fs: fs[i] = self.getp(b, (('f', 0, i),))
        if self.mode == 'sem' and d.endswith('circuit::num::CNum'): raise Unsup('CNum built field by field')
        if d.endswith('PhantomData'): return UNIT
        return Agg(d, [fs.get(i, UNDEF) for i in range(n)])
    def e_Closure(self, st, fr, e):
        caps = [self.ev(st, fr, u) for u in e['up']]
        return Agg(('clo', e['d'], tuple(sorted(fr.env.items()))), caps)
    def e_Lit(self, st, fr, e):
        l = e['l']
        if 'int' in l:
            n = int(l['int'])
            return const(-n if e['neg'] else n)
        if 'bool' in l: return boolv(l['bool'])
        if 'str' in l: return mkref(memloc(rawapp('str', sp('"' + l['str'])), ('p', 'str')))
        if 'bytes' in l:
            loc = newloc()
            st.store[loc] = Seq([('e', const(b)) for b in l['bytes']], ('p', 'u8'))
            return mkref(loc)
        if 'char' in l: return const(l['char'])
        return sp('lit:' + str(l))
    def e_Const(self, st, fr, e):
        t = self.ty(fr, e)
        if e['val'] is not None:
            if t == ('p', 'bool'): return boolv(e['val'] not in ('0', 0))
            if t[0] == 'p' and t[1] in PRIMINT | {'char'}:
                n = int(e['val'])
                if t[1].startswith('i') and n >> (WIDTH[t[1]] - 1): n -= 1 << WIDTH[t[1]]
                return const(n)
        d = e['d']
        a = tuple(self.norm(x, fr.env) for x in e['a'])
        nm = short(d)
        tr = d.rsplit('::', 1)[0]
        im, e2 = self.db.find_impl(tr, a) if a else (None, None)
        if im is not None and nm in im['consts']:
            b = self.db.bodies.get(im['consts'][nm])
            if b is not None: return self.call_body(st, b, e2, [])
        if nm == 'USIZE' and a: return self.usize(a[0])
        b = self.db.bodies.get(d)
        if b is not None: return self.call_body(st, b, dict(zip(b['g'], a)), [])
        if e['res'] is not None:
            b = self.db.bodies.get(e['res']['d'])
            if b is not None: return self.call_body(st, b, dict(zip(b['g'], [self.norm(x, fr.env) for x in e['res'].get('a', ())])), [])
        return self.expand(self.named('const:%s(%s)' % (nm, ','.join(self.tkey(x) for x in a))), t)
    def e_ConstBlock(self, st, fr, e):
        b = self.db.bodies.get(e['d'])
        if b is None: raise Unsup('const block')
        return self.call_body(st, b, fr.env, [])
    def e_CParam(self, st, fr, e):
        t = fr.env.get(e['n'])
        if t and t[0] == 'c' and t[1].isdigit(): return const(int(t[1]))
        return sp('N:' + e['n'])
    def e_Static(self, st, fr, e):
        b = self.db.bodies.get(e['d'])
        if b is None: return mkref(memloc(sp('static:' + e['d']), ('o', 'static')))
        v = self.call_body(st, b, {}, [])
        return self.refto(self.tmp(st, v))
    def e_Unk(self, st, fr, e): raise Unsup('expression ' + e.get('s', '?')[:60])

    # ------------------------------------------------------------ loops
    def e_Loop(self, st, fr, e):
        scs = set(e['sc'])
        def body(s):
            self.ev(s, fr, e['b'])
        return self.loop(st, body, scs)

    def run_iter(self, st, body, scs):
        """one iteration; returns (end state, break exits, outer exits)"""
        s = St()
        s.store = dict(st.store); s.full = st.full; s.wc = dict(st.wc); s.kv = st.kv
        body(s)
        br = [x for x in s.exits if x.target in scs]
        cont = [x for x in s.exits if x.target.startswith('cont:') and x.target[5:] in scs]
        outer = [x for x in s.exits if x not in br and x not in cont]
        if cont: self.merge_exits(s, cont, UNIT)
        return s, br, outer

    def loop_unroll(self, st, body, scs, bound=None):
        """loop of an instance with constant sizes: iterations are merged in sequence until none continues"""
        pc0, alive = st.pc, TRUE
        cur = st
        exits = []
        for it in range((bound or self.unroll) + 1):
            s0 = St(); s0.store = cur.store; s0.full = cur.full if cur is not st else st.full; s0.wc = dict(cur.wc); s0.kv = st.kv
            s, br, outer = self.run_iter(s0, body, scs)
            for x in br + outer:
                x.pc = band(alive, x.pc)
                if x.pc is not FALSE: exits.append(x)
            g0 = band(pc0, alive)
            for g, kind, pl in s.eff:
                g = band(g0, g)
                if g is not FALSE: st.eff.append((g, kind, pl))
            st.pan = bor(st.pan, band(g0, s.pan))
            alive = band(alive, s.pc)
            cur = s
            if alive is FALSE: break
        else: raise (Diverges if alive is TRUE and not exits and st.pan is FALSE else Unsup)('unroll bound')
        st.wc = cur.wc
        nb = [a for a in exits if a.target in scs]
        ob = [a for a in exits if a.target not in scs]
        for a in ob:
            a.pc = band(pc0, a.pc)
            if a.pc is not FALSE: st.exits.append(a)
        st.pc = FALSE
        if not nb:
            st.full = FALSE
            return UNDEF
        v = self.merge_exits(st, nb, UNDEF)
        if ob:
            rest = FALSE
            for a in nb: rest = bor(rest, a.pc)
            st.full = band(st.full, rest)
            st.pc = band(pc0, rest)
        else: st.pc = pc0
        return v

    def loop(self, st, body, scs):
        if self.unroll: return self.loop_unroll(st, body, scs)
        kv = var('k')
        base = dict(st.store)
        cur = dict(base)          # store at the head of iteration k
        phis = {}                 # phi var -> (loc, path, kind)
        fixed = {}                # loc -> set of leaf paths already phi
        kv0 = st.kv
        def start():
            s0 = St(); s0.store = cur; s0.full = st.full; s0.wc = dict(st.wc); s0.kv = kv0 + (kv,)
            return s0
        for rnd in range(12):
            s, br, outer = self.run_iter(start(), body, scs)
            new = False
            if s.pc is not FALSE:
                for l in list(base):
                    if l not in s.store: continue
                    a, b = cur[l], s.store[l]
                    if a is b: continue
                    n = self.havoc(a, b, base[l], l, (), phis)
                    if n is not a: cur[l] = n; new = True
                for l in s.store:
                    if isinstance(l, tuple) and l in MEM and l not in base:
                        x = self.expand(*MEM[l])
                        if s.store[l] is not x and s.store[l].v != x.v:
                            base[l] = x; cur[l] = x; new = True
            if not new: break
        else: raise Unsup('loop state does not stabilise')
        # loop that never comes back
        if s.pc is FALSE and not phis:
            return self.finish_once(st, s, br, outer)
        # ---- solve recurrences
        closed = {}               # phi -> function(kterm) -> value
        steps, inits = {}, {}
        for p, (l, path, kind) in phis.items():
            inits[p] = self.leaf(base[l], path, kind)
            steps[p] = self.leaf(s.store[l], path, kind)
        contc = s.pc
        unsolved = dict(phis)
        while unsolved:
            go = False
            sol = {p: closed[p](kv) for p in closed}
            us = frozenset(unsolved)
            fs = {}
            for p in list(unsolved):
                f = subst(steps[p], sol) if sol else steps[p]
                f = vcare(f, subst(contc, sol) if sol else contc)
                c = self.solve(p, phis[p], inits[p], f, kv, us)
                fs[p] = f
                if c is not None:
                    closed[p] = c
                    del unsolved[p]; go = True
                    sol[p] = c(kv)
                    us = frozenset(unsolved)
            if go or not unsolved: continue
            # mutually dependent values become one fold; values they do not depend on are left for later
            deps = {p: frozenset(fs[p].fv) & us for p in unsolved}
            for p in unsolved:
                if phis[p][2] == 'seq':
                    q = self.lenphi(phis, p)
                    if q in unsolved: deps[p] = deps[p] | {q}
            reach = {}
            for p in unsolved:
                seen, todo = set(), [p]
                while todo:
                    x = todo.pop()
                    for y in deps[x]:
                        if y not in seen: seen.add(y); todo.append(y)
                reach[p] = seen
            ps = None
            for p in unsolved:
                grp = {p} | {q for q in reach[p] if p in reach[q]}
                if reach[p] <= grp: ps = [q for q in unsolved if q in grp]; break
            F = Fold(ps, [inits[p] for p in ps], [self.canonstep(fs[p]) for p in ps], kv)
            for i, p in enumerate(ps):
                q = self.lenphi(phis, p)
                if q is None: ln = None
                elif q in closed: ln = closed[q]
                else: ln = lambda k, j=ps.index(q): foldat(F, j, k)
                closed[p] = self.foldfn(F, i, phis[p], inits[p], ln)
                del unsolved[p]
        # ---- final pass with the closed forms in place
        m = {p: closed[p](kv) for p in closed}
        cur2 = {l: (subst(v, m) if m and (v.fv & frozenset(m)) else v) for l, v in cur.items()}
        s0 = start(); s0.store = cur2
        s, br, outer = self.run_iter(s0, body, scs)
        exits = br + outer
        if not exits:
            st.pc = FALSE
            return UNDEF
        X = FALSE
        for x in exits: X = bor(X, x.pc)
        N, bound, groups = self.tripcount(X, kv, exits)
        if isinstance(bound, T) and bound.op == 'const' and 0 < bound.args[0] <= 8:
            return self.loop_unroll(st, body, scs, 9)      # a constant handful of rounds: the same as writing them out
        mN = {kv: N}
        # store at exit
        notX = bnot(X)
        def atN(v): return subst(v, mN) if (v.fv & frozenset([kv])) else v
        # effects
        body_eff = []
        for g, kind, pl in s.eff:
            gg = care(g, notX) if notX is not FALSE else FALSE
            if band(g, notX) is not FALSE:
                body_eff.append((gg, kind, pl))
            if X is not FALSE and band(g, X) is not FALSE:
                gx = atN(care(g, X))
                if gx is not FALSE and (g is TRUE or band(g, X) is not FALSE):
                    st.eff.append((band(st.pc, gx), kind, self.effsub(pl, mN)))
        if body_eff: st.eff.append((st.pc, 'loop', (N, kv, body_eff)))
        # panics
        if s.pan is not FALSE:
            pb = care(s.pan, notX) if notX is not FALSE else s.pan
            if kv in pb.fv: pp = bnot(app('all', N, Lam(kv, bnot(pb))))
            else: pp = band(pb, ilt(ZERO, N))
            st.pan = bor(st.pan, band(st.pc, pp))
            if pp is TRUE: pass
        st.wc = s.wc
        # merge exits
        alts = []
        for x, sel in groups:
            stx = {}
            for l, v in x.store.items():
                stx[l] = atN(v)
            alts.append(Exit(sel if sel is not None else atN(x.pc), x.target, atN(x.val), stx))
        if len(alts) > 1:
            tot = FALSE
            for a in alts: tot = bor(tot, a.pc)
            if tot is not TRUE:
                for a in alts: a.pc = care(a.pc, tot)
        else: alts[0].pc = TRUE
        nb = [a for a in alts if a.target in scs]
        ob = [a for a in alts if a.target not in scs]
        pc0 = st.pc
        for a in ob:
            a.pc = band(pc0, a.pc)
            if a.pc is not FALSE: st.exits.append(a)
        if not nb:
            st.pc = FALSE
            return UNDEF
        st.pc = FALSE
        v = self.merge_exits(st, nb, UNDEF)
        if ob:
            rest = FALSE
            for a in nb: rest = bor(rest, a.pc)
            st.full = band(st.full, rest)
            st.pc = band(pc0, rest)
        else: st.pc = pc0
        return v

    def effsub(self, pl, m):
        out = []
        for x in pl:
            if isinstance(x, V): out.append(subst(x, m))
            else: out.append(x)
        if pl and isinstance(pl[-1], list):      # nested loop entry
            N, k, ents = pl
            return (subst(N, m), k, [(subst(g, m), kd, self.effsub(p, m)) for g, kd, p in ents])
        return tuple(out)

    def canonstep(self, v): return v

    def finish_once(self, st, s, br, outer):
        """body never reaches its end: at most one iteration"""
        pc0 = st.pc
        for g, kind, pl in s.eff: st.eff.append((band(pc0, g), kind, pl))
        st.pan = bor(st.pan, band(pc0, s.pan))
        for x in outer:
            x.pc = band(pc0, x.pc); st.exits.append(x)
        st.wc = s.wc
        tot = FALSE
        for x in br: tot = bor(tot, x.pc)
        st.pc = FALSE
        if not br: return UNDEF
        v = self.merge_exits(st, br, UNDEF)
        st.pc = band(pc0, tot) if outer else pc0
        return v

    def tripcount(self, X, kv, exits):
        """number of completed iterations, and the selector of each exit"""
        if X is TRUE: return ZERO, None, [(x, None) for x in exits]
        b = self.threshold(X, kv)
        if b is not None:
            return b, b, [(x, None) for x in exits]
        # split into counter exits and data exits
        cnt, dat = [], []
        for x in exits:
            b = self.threshold(x.pc, kv)
            if b is not None: cnt.append((x, b))
            else: dat.append(x)
        # counter exits may be guarded by "not the data exit of the same iteration": use the part that is a threshold
        if len(cnt) == 1 and dat:
            x, n = cnt[0]
            D = FALSE
            for y in dat: D = bor(D, y.pc)
            inr = ilt(kv, n)
            D = care(D, inr)
            m = app('firstk', n, Lam(kv, D))
            hit = ilt(m, n)
            groups = [(x, bnot(hit))]
            for y in dat:
                groups.append((y, band(hit, subst(care(y.pc, bor(D, FALSE)), {kv: m})) if len(dat) > 1 else hit))
            return m, n, groups
        m = app('firstk', sp('inf'), Lam(kv, X))
        return m, None, [(x, None) for x in exits]

    def threshold(self, X, kv):
        """X(k) == (k >= n)  ->  n"""
        if X is TRUE: return ZERO
        if not isinstance(X, Ite): return None
        a = X.at
        if a.kind != 'LT' or kv not in a.data[0].fv:
            if kv in a.fv: return None
            h, l = self.threshold(X.hi, kv), self.threshold(X.lo, kv)
            if h is None or l is None: return None
            return ite(mkcond(a), h, l)
        L, th = a.data
        p = poly(L)
        ck = p.get((kv.v,))
        if ck is None or any(kv in TM._TT[x].fv for m in p if m != (kv.v,) for x in m): return None
        rest = frompoly({m: c for m, c in p.items() if m != (kv.v,)})
        # L < th  <=> ck*k + rest < th
        if ck == 1:
            n = self.nonneg(sub(const(th), rest))      # k < n
            if X.hi is FALSE and X.lo is TRUE: return n
            if X.lo is TRUE:
                h = self.threshold(X.hi, kv)
                return None if h is None else lift(lambda x, y: app('min', x, y), n, h)
            if X.hi is FALSE:
                l = self.threshold(X.lo, kv)
                # exits at k>=n only when l: k >= max(n,l)
                return None if l is None else lift(lambda x, y: app('max', x, y), n, l)
        if ck == -1:
            # -k + rest < th  <=> k > rest - th <=> k >= rest-th+1
            n = self.nonneg(sub(rest, const(th - 1)))
            if X.hi is TRUE and X.lo is FALSE: return n
            if X.hi is TRUE:
                l = self.threshold(X.lo, kv)
                return None if l is None else lift(lambda x, y: app('min', x, y), n, l)
            if X.lo is FALSE:
                h = self.threshold(X.hi, kv)
                return None if h is None else lift(lambda x, y: app('max', x, y), n, h)
        return None
    def nonneg(self, n):
        def f(t):
            if prove_ge0(t): return t
            c = intconst(t)
            if c is not None: return const(max(c, 0))
            return app('max', t, ZERO)
        return lift(f, n)

    def havoc(self, a, b, a0, loc, path, phis):
        """start value for the next round: leaves that changed become phi variables"""
        if a is b: return a
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
            if a.tag == 'CNum' and b.tag == 'CNum' or isinstance(a.tag, tuple) and a.tag[0] in ('it',) or True:
                fs = [self.havoc(x, y, None, loc, path + (('a', i),), phis) for i, (x, y) in enumerate(zip(a.fs, b.fs))]
                if all(x is y for x, y in zip(fs, a.fs)): return a
                return Agg(a.tag, fs)
        if isinstance(a, En) and isinstance(b, En):
            pay = {}
            ch = False
            for k in set(a.pay) | set(b.pay):
                pa, pb = a.pay.get(k), b.pay.get(k)
                if pa is None or isvar(a, k) is FALSE and pb is not None:
                    pa = tuple(undef_like(x) for x in pb)
                if pb is None or isvar(b, k) is FALSE: pay[k] = pa; continue
                q = tuple(self.havoc(x, y, None, loc, path + (('p', k, i),), phis) for i, (x, y) in enumerate(zip(pa, pb)))
                if any(x is not y for x, y in zip(q, a.pay.get(k, ()))): ch = True
                pay[k] = q
            disc = a.disc
            if a.disc.v != b.disc.v:
                if not self.isphi(a.disc, phis):
                    p = var('d'); phis[p] = (loc, path + (('disc',),), 'd')
                    nv = max(pay) + 1
                    disc = const(nv - 1)
                    for i in range(nv - 2, -1, -1): disc = ite(isv(p, i), const(i), disc)
                    if nv == 2: disc = ite(isv(p, 1), ONE, ZERO)
                    ch = True
            return En(a.tag, disc, pay) if ch else a
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.v == b.v: return a
            if a.all_e() and b.all_e() and len(a.segs) == len(b.segs):
                es = [self.havoc(x, y, None, loc, path + (('e', i),), phis) for i, (x, y) in enumerate(zip(a.els(), b.els()))]
                if all(x is y for x, y in zip(es, a.els())): return a
                return Seq([('e', x) for x in es], a.ety)
            if len(a.segs) == 1 and a.segs[0][0] == 'o' and a.segs[0][1] in phis:
                p = a.segs[0][1]
                n = a.segs[0][2]
                if n.v != b.length.v and n not in phis:
                    q = var('n'); phis[q] = (loc, path + (('len',),), 's')
                    return Seq([('o', p, q)], a.ety)
                return a
            p = var('s'); phis[p] = (loc, path, 'seq')
            if a.length.v == b.length.v: return Seq([('o', p, a.length)], a.ety or b.ety)
            q = var('n'); phis[q] = (loc, path + (('len',),), 's')
            return Seq([('o', p, q)], a.ety or b.ety)
        if isinstance(a, T) and a.op == 'ref' and isinstance(b, T) and b.op == 'ref':
            (l1, p1), (l2, p2) = a.args, b.args
            if l1 == l2 and len(p1) == len(p2) and all(x[0] == y[0] and len(x) == len(y) for x, y in zip(p1, p2)):
                np = []
                ch = False
                for i, (x, y) in enumerate(zip(p1, p2)):
                    q = [x[0]]
                    for j in range(1, len(x)):
                        u, w = x[j], y[j]
                        if isinstance(u, V) and u.v != w.v and not self.isphi(u, phis):
                            ph = var('r'); phis[ph] = (loc, path + (('ref', i, j),), 's'); q.append(ph); ch = True
                        else: q.append(u)
                    np.append(tuple(q))
                return mkref(l1, tuple(np)) if ch else a
            # arbitrary symbolic memory: treat the pointed-to object as the state
            if isinstance(l1, tuple) and isinstance(l2, tuple) and l1 in MEM and l2 in MEM and not p1 and not p2:
                t1 = MEM[l1][0]
                if t1 in phis: return a
                ph = var('m'); phis[ph] = (loc, path, 'mref'); MEMTY[ph] = MEM[l1][1]
                return mkref(memloc(ph, MEM[l1][1]))
            raise Unsup('reference changes in a loop')
        if isinstance(a, (T, Ite)) and isinstance(b, (T, Ite)):
            if a.v == b.v: return a
            if self.isphi(a, phis): return a
            if isboolish(a) or isboolish(b):
                p = var('b'); phis[p] = (loc, path, 'b')
                return bvar(p)
            p = var('x'); phis[p] = (loc, path, 's')
            return p
        if a is UNDEF:
            return self.havoc(undef_like(b), b, None, loc, path, phis) if not isinstance(b, (T, Ite, Seq)) else self.havoc_undef(b, loc, path, phis)
        raise Unsup('loop-carried value changes shape: %s -> %s' % (show(a)[:60], show(b)[:60]))
    def havoc_undef(self, b, loc, path, phis):
        # assigned in the loop, undefined before: value only meaningful after first iteration
        if isinstance(b, Seq):
            p = var('s'); phis[p] = (loc, path, 'seq')
            return Seq([('o', p, b.length)], b.ety)
        if isboolish(b):
            p = var('b'); phis[p] = (loc, path, 'b'); return bvar(p)
        p = var('x'); phis[p] = (loc, path, 's')
        return p
    def isphi(self, a, phis):
        if a in phis: return True
        if isinstance(a, Ite) and a.at.kind == 'B' and a.at.data in phis: return True
        if isinstance(a, Ite) and a.at.kind == 'IS' and a.at.data[0] in phis: return True
        return False

    def leaf(self, v, path, kind):
        for p in path:
            if v is UNDEF: return UNDEF
            if p[0] == 'a': v = v.fs[p[1]] if isinstance(v, Agg) else UNDEF
            elif p[0] == 'p':
                v = v.pay[p[1]][p[2]] if isinstance(v, En) and p[1] in v.pay and p[2] < len(v.pay[p[1]]) else UNDEF
            elif p[0] == 'disc': v = v.disc
            elif p[0] == 'e': v = seq_get(v, const(p[1]))
            elif p[0] == 'len': v = v.length
            elif p[0] == 'ref': v = v.args[1][p[1]][p[2]]
        if kind == 'mref': return MEM[v.args[0]][0]
        return v

    def lenphi(self, phis, p):
        l, path, kind = phis[p]
        if kind != 'seq': return None
        for q, (l2, path2, k2) in phis.items():
            if l2 == l and path2 == path + (('len',),): return q
    def foldfn(self, F, i, info, init, ln=None):
        kind = info[2]
        def f(k):
            if kind == 'seq':
                if isinstance(k, Ite): return lift(f, k)
                if ln is not None: n = ln(k)
                else:
                    n = init.length if isinstance(init, Seq) else F.steps[i].length
                    if isinstance(init, Seq) and F.steps[i].length.v != n.v: raise Unsup('sequence of unknown length in a loop')
                t = foldat(F, i, k)
                return Seq([('o', t, n)], init.ety if isinstance(init, Seq) else F.steps[i].ety)
            t = foldat(F, i, k)
            if kind == 'b': return lift(lambda x: bvar(x) if isinstance(x, T) else x, t)
            if kind == 'd': return t
            return t
        return f

    def solve(self, p, info, init, f, kv, us):
        """closed form of phi p with step f, or None"""
        kind = info[2]
        if kind == 'seq': return self.solve_seq(p, init, f, kv, us)
        others = us - {p}
        if f is UNDEF: return None
        if not (f.fv & us):
            # value of the previous iteration
            if kv not in f.fv and f.v == init.v: return lambda k: init
            if kind in ('s', 'b', 'd', 'mref'):
                if init is UNDEF: return lambda k: subst(f, {kv: sub(k, ONE)})
                def delayed(k):
                    c = ilt(k, ONE)
                    return vite(c, init, subst(f, {kv: sub(k, ONE)}))
                return delayed
        if kind == 's' and isinstance(f, T) and isinstance(init, (T, Ite)):
            d = sub(f, p)
            if not (d.fv & us):
                if kv not in d.fv: return lambda k: add(init, mul(d, k))
                return lambda k: add(init, lift(lambda kk: app('sum', kk, Lam(kv, d)), k))
            if not (f.fv & others) and not f.v == (0, 0):
                q = div(f, p)
                if isinstance(q, T) and not self.dep(q, us | {kv}): 
                    q = self.reduce_ratio(f, p, us, kv)
                    if q is not None: return lambda k: mul(init, lift(lambda kk: app('pow', q, kk), k))
        if kind == 's' and isinstance(f, Ite) and isinstance(init, (T, Ite)):
            d = sub(f, p)
            if not (d.fv & us):
                if kv not in d.fv: return lambda k: add(init, mul(d, k))
                return lambda k: add(init, lift(lambda kk: app('sum', kk, Lam(kv, d)), k))
        if kind == 'b' and isinstance(f, Ite) and not (f.fv & others):
            at = bvar(p).at
            hi, lo = cofactor(f, at, True), cofactor(f, at, False)
            if not (hi.fv & us) and not (lo.fv & us):
                if lo is FALSE: return lambda k: band(init, app('all', k, Lam(kv, hi)))
                if hi is TRUE: return lambda k: bor(init, bnot(app('all', k, Lam(kv, bnot(lo)))))
        return None
    def dep(self, q, vs):
        """does rational value q really depend on vs? (random evaluation of the variables)"""
        if not (q.fv & vs): return False
        m = {x: const(12345 + 7 * i) for i, x in enumerate(sorted(q.fv & vs, key=lambda t: t.v))}
        m2 = {x: const(98765 + 11 * i) for i, x in enumerate(sorted(q.fv & vs, key=lambda t: t.v))}
        return subst(q, m).v != subst(q, m2).v
    def reduce_ratio(self, f, p, us, kv):
        """f = q*p with q free of p"""
        r = subst(f, {p: ONE})
        if mul(r, p).v == f.v and not (r.fv & us) and kv not in r.fv: return r
        return None

    def solve_seq(self, p, init, f, kv, us):
        if not isinstance(f, Seq): return None
        others = us - {p}
        if not isinstance(init, Seq): return None
        if f.segs and f.segs[0][0] == 'o' and f.segs[0][1] is p:
            rest = f.segs[1:]
            if all(g[0] == 'e' and not (g[1].fv & us) for g in rest) and len(rest) >= 1 :
                c = len(rest)
                if c == 1:
                    body = rest[0][1]
                    return lambda k: seq_concat(init, mkmap(k, kv, body, f.ety))
                def clos(k):
                    j = var('j')
                    q = app('idiv', j, const(c)); r = app('irem', j, const(c))
                    b = subst(rest[-1][1], {kv: q})
                    for i in range(c - 2, -1, -1): b = vite(ieq(r, const(i)), subst(rest[i][1], {kv: q}), b)
                    return seq_concat(init, mkmap(mul(k, const(c)), j, b, f.ety))
                return clos
        if not (f.fv & us) and f.length.v == init.length.v and kv not in f.fv:
            return lambda k: lift(lambda kk: vite(ilt(kk, ONE), init, f), k) if not isinstance(k, Ite) else vite(ilt(k, ONE), init, f)
        if f.length.v != init.length.v: return None
        # element-wise store
        if len(f.segs) == 1 and f.segs[0][0] == 'm':
            _, L, j, body = f.segs[0]
            ps = Seq([('o', p, init.length)], f.ety)
            for idx in self.index_candidates(body, j):
                X = subst(body, {j: idx})
                if seq_set(ps, idx, X).v != f.v: continue
                if X.fv & others or idx.fv & us: continue
                reads = self.reads_of(X, p)
                if reads is None: continue
                if kv not in idx.fv:
                    # one cell accumulates
                    if not all(r.v == idx.v for r in reads): continue
                    return self.solve_cell(p, init, f, idx, X, kv, us)
                pl = poly(idx)
                ck = pl.get((kv.v,))
                if ck is None: continue
                a = subst(idx, {kv: ZERO})
                if ck == 1 and add(a, kv).v == idx.v:
                    with facts():
                        if all(prove_ge0(sub(r, idx)) for r in reads):
                            X2 = self.replace_base(X, p, init)
                            return lambda k: lift(lambda kk: seq_map_range(init, a, kk, kv, X2), k)
                if ck == -1 and sub(a, kv).v == idx.v:
                    if all(prove_ge0(sub(idx, r)) or r.v == idx.v for r in reads):
                        X2 = self.replace_base(X, p, init)
                        def down(k):
                            j2 = var('j')
                            b = subst(X2, {kv: sub(sub(k, ONE), j2)})
                            return seq_map_range(init, sub(add(a, ONE), k), k, j2, b)
                        return down
        return None
    def solve_cell(self, p, init, f, idx, X, kv, us):
        ety = f.ety
        ps = Seq([('o', p, init.length)], ety)
        old = seq_get(ps, idx)
        i0 = seq_get(init, idx)
        # structural leaves of the cell
        def rec(o, x, z):
            if isinstance(o, Agg) and isinstance(x, Agg) and isinstance(z, Agg):
                rs = [rec(a, b, c) for a, b, c in zip(o.fs, x.fs, z.fs)]
                if any(r is None for r in rs): return None
                return lambda k: Agg(x.tag, [r(k) for r in rs])
            if isinstance(o, T) and isinstance(x, (T, Ite)):
                q = var('x')
                x2 = replace_term(x, o, q)
                if x2 is None: return None
                return self.solve(q, (None, None, 's'), z, x2, kv, frozenset([q]) | us)
            if isinstance(o, Ite) and isboolish(o):
                if x.v == o.v: return lambda k: z
                return (lambda k: UNDEF) if not isinstance(z, (Agg,)) else None
            return None
        r = rec(old, X, i0)
        if r is None: return None
        return lambda k: seq_set(init, idx, r(k))
    def index_candidates(self, body, j):
        ats = set()
        collect_all_atoms(body, ats)
        out = []
        for a in ats:
            if a.kind != 'LT' or j not in a.data[0].fv: continue
            L, th = a.data
            pl = poly(L)
            cj = pl.get((j.v,))
            if cj not in (1, -1): continue
            rest = frompoly({m: c for m, c in pl.items() if m != (j.v,)})
            # j == idx is LT(j-idx) th 0/1
            if cj == 1:
                for t in (th, th - 1): out.append(sub(const(t), rest))
            else:
                for t in (th, th - 1): out.append(sub(rest, const(t)))
        u = {}
        for x in out: u[x.v] = x
        return list(u.values())
    def reads_of(self, X, p):
        """indices at which X reads sequence p; None if p is used otherwise"""
        out = []
        bad = []
        seen = set()
        def go(x):
            if not isinstance(x, V) or p not in x.fv: return
            if id(x) in seen: return
            seen.add(id(x))
            if isinstance(x, T):
                if x is p: bad.append(x); return
                if x.op == 'app':
                    if x.args[0] == 'get' and x.args[1] is p: out.append(x.args[2]); go(x.args[2]); return
                    for a in x.args[1:]: go(a)
                elif x.op in ('add', 'mul', 'inv'):
                    for a in x.args: go(a)
                else: bad.append(x)
            elif isinstance(x, Ite):
                d = x.at.data
                for y in (d if isinstance(d, tuple) else (d,)): go(y)
                go(x.hi); go(x.lo)
            elif isinstance(x, Agg):
                for a in x.fs: go(a)
            elif isinstance(x, En):
                go(x.disc)
                for k in x.pay:
                    for a in x.pay[k]: go(a)
            elif isinstance(x, Lam): go(x.body)
            elif isinstance(x, Seq):
                for g in x.segs:
                    if g[0] == 'e': go(g[1])
                    elif g[0] == 'm': go(g[1]); go(g[3])
                    else:
                        bad.append(x)
            else: bad.append(x)
        go(X)
        return None if bad else out
    def replace_base(self, X, p, init): return subst(X, {p: init})

    # ------------------------------------------------------------ entry
    def run(self, body, env, names=None, init=None):
        """analyse a function on symbolic arguments; returns Summary"""
        self.activate()
        MEM.clear()
        st = St()
        st.store[OSLOC] = sp('os')
        for l in self.world.values(): st.store[l] = sp('world')
        args = []
        outs = []
        for i, p in enumerate(body['params']):
            ty = self.norm(p['ty'], env)
            t = sp('arg%d' % i if not names else names[i])
            if ty[0] == 'ref':
                l = newloc()
                st.store[l] = init[i] if init and i in init else self.expand(t, ty[1])
                args.append(mkref(l))
                if ty[2]: outs.append((i, l))
            else: args.append(init[i] if init and i in init else self.expand(t, ty))
        v = self.call_body(st, body, env, args)
        S = Summary()
        bl = [pl[0] for g, kd, pl in st.eff if kd == 'alloc' and pl[0].op == 'var']
        if bl:
            m = {w: rawapp('wire', const(i), sp('nohint')) for i, w in enumerate(bl)}
            v = subst(v, m); st.store = {l: subst(x, m) for l, x in st.store.items()}
            st.eff = [(subst(g, m), kd, self.effsub(pl, m)) for g, kd, pl in st.eff]
            st.pan = subst(st.pan, m)
        S.ret = self.deep(st, v) if st.pc is not FALSE else UNDEF
        S.outs = {i: self.deep(st, st.store[l]) for i, l in outs}
        for n, l in self.world.items():
            if l in st.store: S.outs[n] = self.deep(st, st.store[l])
        S.eff = st.eff
        S.pan = st.pan
        S.dead = st.pc is FALSE
        S.st = st
        return S

class Summary: pass

class Ctx:
    __slots__ = ('eng', 'st', 'd', 'p', 'targs', 'rid', 'body', 'args', 'argtys', 'ret')
    def __init__(s, eng, st, d, p, targs, rid, body, args, argtys, ret):
        s.eng, s.st, s.d, s.p, s.targs, s.rid, s.body, s.args, s.argtys, s.ret = eng, st, d, p, targs, rid, body, args, argtys, ret
    def model_keys(s):
        k = s.eng.key_of(s.d, s.p)
        out = [k]
        k2 = '::'.join(s.d.split('::')[-2:])
        if k2 != k and '{' not in k2: out.append(k2)
        out.append(k.split('::')[0] + '::*')
        return out
    def val(s, i): return s.eng.cont(s.st, s.args[i])

# ------------------------------------------------------------------ helpers
def dropk(v):
    """circuit numbers as plain scalars"""
    if isinstance(v, Agg):
        if v.tag == 'CNum': return v.fs[0]
        return Agg(v.tag, [dropk(f) for f in v.fs])
    if isinstance(v, En): return En(v.tag, v.disc, {k: [dropk(f) for f in p] for k, p in v.pay.items()})
    if isinstance(v, Seq):
        out = []
        for g in v.segs:
            if g[0] == 'e': out.append(('e', dropk(g[1])))
            elif g[0] == 'm': out.append(('m', g[1], g[2], dropk(g[3])))
            elif v.ety is not None and 'CNum' in str(v.ety):
                k = var('k'); out.append(('m', g[2], k, dropk(elem(g[1], k, v.ety))))
            else: out.append(g)
        return Seq(out, v.ety)
    return v
def mkcnum(s, K): return Agg('CNum', [s, K])
def leaves(x):
    out = []
    seen = set()
    def go(y):
        if isinstance(y, Ite):
            if y.id in seen: return
            seen.add(y.id); go(y.hi); go(y.lo)
        else: out.append(y)
    go(x)
    return out
def isboolish(x):
    return all(l in (TRUE, FALSE, UNDEF) for l in leaves(x)) and any(l in (TRUE, FALSE) for l in leaves(x))
def undef_like(x):
    if isinstance(x, Agg): return Agg(x.tag, [undef_like(f) for f in x.fs])
    if isinstance(x, En): return En(x.tag, UNDEF, {k: tuple(undef_like(f) for f in p) for k, p in x.pay.items()})
    return UNDEF
def peel(t):
    while t[0] == 'ref': t = t[1]
    return t
def unsigned(ty): return ty[0] == 'p' and ty[1][0] == 'u'
def concrete(t):
    if t[0] in ('par', 'proj', 'closure', 'fndef', 'o', 'fnptr'): return False
    if t[0] == 'adt': return all(concrete(a) for a in t[2])
    if t[0] in ('ref', 'slice', 'array', 'ptr'): return concrete(t[1])
    if t[0] == 'tup': return all(concrete(a) for a in t[1])
    return True
def hasref(t):
    if t[0] == 'ref': return True
    if t[0] == 'tup': return any(hasref(a) for a in t[1])
    if t[0] == 'adt': return any(hasref(a) for a in t[2])
    return False
def has_let(e):
    if e['k'] == 'LetE': return True
    if e['k'] == 'Log': return has_let(e['l']) or has_let(e['r'])
    return False
def typenum(l):
    """UInt<UInt<UTerm,B1>,B0> -> 2"""
    n = short(l[1])
    if n == 'UTerm': return 0
    if n == 'UInt':
        h = typenum(l[2][0])
        return None if h is None else 2 * h + (1 if short(l[2][1][1]) == 'B1' else 0)
    return None
def mkmap(n, k, body, ety):
    if isinstance(n, Ite): return lift(lambda x: mkmap(x, k, body, ety), n)
    # eta: a map that re-reads an opaque sequence is that sequence
    return Seq([('m', n, k, body)], ety)
def collect_all_atoms(x, out):
    if isinstance(x, Ite):
        out.add(x.at); collect_all_atoms(x.hi, out); collect_all_atoms(x.lo, out)
    elif isinstance(x, Agg):
        for f in x.fs: collect_all_atoms(f, out)
    elif isinstance(x, En):
        collect_all_atoms(x.disc, out)
        for p in x.pay.values():
            for f in p: collect_all_atoms(f, out)
    elif isinstance(x, Seq):
        for g in x.segs:
            if g[0] == 'e': collect_all_atoms(g[1], out)
def replace_term(x, old, new):
    """x with every occurrence of scalar term old replaced; None if impossible"""
    memo = {}
    def go(y):
        if isinstance(y, T):
            if y.v == old.v: return new
            if id(y) in memo: return memo[id(y)][0]
            r = y
            if y.op == 'add': r = add(go(y.args[0]), go(y.args[1]))
            elif y.op == 'mul': r = mul(go(y.args[0]), go(y.args[1]))
            elif y.op == 'inv': r = inv(go(y.args[0]))
            elif y.op == 'app': r = app(y.args[0], *[go(a) if isinstance(a, (T, Ite, Agg)) else a for a in y.args[1:]])
            memo[id(y)] = (r, y)
            return r
        if isinstance(y, Ite):
            a = y.at
            if a.kind == 'EQ0': c = eq0(go(a.data))
            elif a.kind == 'B': c = bvar(go(a.data))
            else: c = mkcond(a)
            return vite(c, go(y.hi), go(y.lo))
        if isinstance(y, Agg): return Agg(y.tag, [go(f) for f in y.fs])
        return y
    return go(x)
