"""Shape analysis: which allocations, public inputs and constraints a circuit function emits, and in which order,
may depend on constants and sizes only.

Every recorded effect carries the condition under which it is emitted.  Conditions are decision diagrams over
atoms; an atom is *secret* when it mentions the witness (its presence, an allocated wire, the witness argument of
an allocation, or the value of a signal that is not a constant on that path).  All assignments of the secret
atoms have to leave the same list of effects."""
from terms import *
import terms as TM
from engine import *
import contracts
from elim import Undecided

def sigty(t):
    """does the type carry signals?"""
    if not isinstance(t, tuple) or not t: return False
    if t[0] == 'adt' and t[1].split('::')[-1] in ('CNum', 'CBool'): return True
    if t[0] == 'adt' and t[1].startswith('fawkes_crypto::circuit::') : return True
    return any(sigty(x) for x in t if isinstance(x, tuple))

def classify(body):
    sig, wit = set(), set()
    for i, p in enumerate(body['params']):
        t = p['ty']
        if t[0] == 'adt' and t[1].endswith('Option'): wit.add('arg%d' % i)
        elif sigty(t): sig.add('arg%d' % i)
        elif t[0] == 'par' and len(t) > 1 and t[1] not in ('CS', 'J', 'F'): sig.add('arg%d' % i)
        elif t[0] == 'ref' and isinstance(t[1], tuple) and len(t[1]) > 1 and t[1][0] == 'par' and t[1][1] not in ('CS', 'J', 'F'): sig.add('arg%d' % i)
    return sig, wit

def flagged(name, f):
    """a gadget whose constraints depend only on which operands are constants"""
    def g(c):
        ks = []
        for i in range(len(c.args)):
            try: ks.append(contracts.cn(c, i)[1])
            except Unsup: pass
        c.eng.emit(c.st, 'prim:' + name, *ks)
        return f(c)
    return g
SHAPE = dict(contracts.G)
for _k in contracts.G:
    if _k in contracts.PRIM or '::alloc@' in _k: continue
    SHAPE[_k] = flagged(_k, contracts.G[_k])

def _hash(c):
    v = c.eng.opaque(c.st, 'poseidon', None, c.args, c.argtys, c.ret)
    c.eng.emit(c.st, 'prim:poseidon')
    return mkcnum(v.fs[0] if isinstance(v, Agg) else v, FALSE)
EXTRA = {'circuit::poseidon::c_poseidon': _hash}

class Secrets:
    def __init__(s, sig, wit): s.sig, s.wit, s.memo = sig, wit, {}
    def root(s, t):
        """argument a projection chain starts at"""
        while isinstance(t, T) and t.op == 'app' and t.args[0] in ('fld', 'get', 'var', 'vfld', 'deref'): t = [a for a in t.args[1:] if isinstance(a, T)][0]
        return t.args[0] if isinstance(t, T) and t.op == 'sp' else None
    def of(s, x):
        """set of secrets a value mentions: signal terms, or True for unconditional ones"""
        if isinstance(x, T):
            r = s.memo.get(x.v)
            if r is None: r = s.memo[x.v] = s._of(x)
            return r
        if isinstance(x, Ite):
            o = set(); seen = set(); st = [x]
            while st:
                y = st.pop()
                if isinstance(y, Ite):
                    if y.id in seen: continue
                    seen.add(y.id); o |= s.atom(y.at); st += [y.hi, y.lo]
                else: o |= s.of(y)
            return o
        o = set()
        if isinstance(x, Agg):
            for f in x.fs: o |= s.of(f)
        elif isinstance(x, Lam): o |= s.of(x.body)
        elif isinstance(x, En):
            o |= s.of(x.disc)
            for p in x.pay.values():
                for f in p: o |= s.of(f)
        elif isinstance(x, (tuple, list)):
            for y in x: o |= s.of(y)
        return o
    def _of(s, x):
        if x.op == 'sp':
            if x.args[0] == 'witness': return {True}
            if x.args[0] in s.wit: return {True}
            if x.args[0] in s.sig: return {x}
            return set()
        if x.op == 'app':
            n = x.args[0]
            if n in ('wire', 'input', 'W'): return {True}
            if n == 'K': return set()
            if n == 'len':
                r = s.root(x.args[1])
                return set() if r in s.sig else s.of(x.args[1:])
            r = s.root(x)
            if r in s.wit: return {True}
            if r in s.sig: return {x}
        return s.of([a for a in x.args if isinstance(a, (V, tuple))])
    def atom(s, at):
        r = s.memo.get(at)
        if r is None:
            if at.kind == 'B' and isinstance(at.data, T) and at.data.op == 'app' and at.data.args[0] == 'K': r = set()
            else: r = s.of(at.data) if isinstance(at.data, V) else s.of(list(at.data)) if isinstance(at.data, (tuple, list)) else set()
            s.memo[at] = r
        return r

def guards_atoms(shape, out):
    for e in shape:
        for x in e:
            if isinstance(x, Ite):
                seen = set(); st = [x]
                while st:
                    y = st.pop()
                    if isinstance(y, Ite) and y.id not in seen:
                        seen.add(y.id); out.add(y.at); st += [y.hi, y.lo]

def isK(at): return at.kind == 'B' and isinstance(at.data, T) and at.data.op == 'app' and at.data.args[0] == 'K'

def cof(shape, at, v):
    out = []
    for e in shape:
        g = cofactor(e[0], at, v)
        if g is FALSE: continue
        out.append((g, e[1]) + tuple(cofactor(x, at, v) if isinstance(x, (Ite,)) else x for x in e[2:]))
    return out

KINDS = {'alloc', 'input', 'eq', 'nz', 'public'}

def norm(eff, sec, live):
    """effects -> flat shape; loops become one entry with their inner shape"""
    out = []
    for g, k, pl in eff:
        if live is not None: g = care(g, live) if isinstance(g, Ite) else g
        if k == 'loop':
            N, kv, ents = pl
            inner = norm(ents, sec, None)
            if not inner: continue
            if isinstance(N, T) and sec.of(N): raise Bad('the number of times a loop emits constraints depends on ' + name(sec.of(N)))
            decide(inner, sec, 'inside a loop')
            out.append((g, 'loop', N, subst_key(inner, kv)))
        elif k in KINDS: out.append((g, k))
        elif k.startswith('prim:'): out.append((g, k) + tuple(pl))
    return out

class Bad(Exception): pass

def name(s):
    s = [x for x in s]
    return 'the witness' if True in s else ', '.join(sorted(show(x, 5) for x in s))

def subst_key(inner, kv):
    return tuple((Lam(kv, e[0]).v if isinstance(e[0], Ite) else e[0].v, e[1]) + tuple(x if not isinstance(x, V) else x.v for x in e[2:]) for e in inner)

def key(shape): return tuple((e[0].v, e[1]) + tuple(x.v if isinstance(x, V) else x for x in e[2:]) for e in shape)

def decide(shape, sec, where, pan=FALSE):
    n = [0]
    def ks(sh, pan, known):
        ats = set(); guards_atoms(sh, ats)
        if isinstance(pan, Ite): guards_atoms([(pan,)], ats)
        K = sorted((a for a in ats if isK(a)), key=lambda a: a.idx)
        if K:
            for v in (True, False):
                ks(cof(sh, K[0], v), cofactor(pan, K[0], v), {**known, K[0].data.args[1].v: v})
            return
        seen = {}
        def go(sh, pan, log):
            n[0] += 1
            if n[0] > 20000: raise Undecided('shape cases')
            if pan is TRUE: return
            ats = set(); guards_atoms(sh, ats)
            bad = sorted((a for a in ats if any(x is True or not known.get(x.v) for x in sec.atom(a))), key=lambda a: a.idx)
            if not bad:
                k = key(sh)
                if not seen: seen[k] = (sh, log)
                elif k not in seen:
                    o, l0 = next(iter(seen.values()))
                    raise Bad('%s%d effects when %s, %d effects when %s' % (where + ' ' if where else '', len(sh), '; '.join(log) or 'always', len(o), '; '.join(l0) or 'always'))
                return
            a = bad[0]
            # cases excluded by the panic condition are no runs
            for v in (True, False):
                go(cof(sh, a, v), cofactor(pan, a, v), log + ('%s%s' % ('' if v else 'not ', show_at(a, 4)[:120]),))
        go(sh, pan, ())
    ks(shape, pan, {})
    return n[0]

def shape(pr, inst=None):
    import pairs
    lay = SHAPE if pr.layer == 'sem' else pairs.LAYERS[pr.layer]
    e, S = pairs.run(pr.s, lay, {**pr.extra, **EXTRA} if pr.extra else None, inst, pairs.rounds(inst) if inst else 0)
    meta = {'functions': sorted(x for x in e.analysed if not x.startswith('harness')), 'calls': e.ncalls, 'effects': len(S.eff)}
    if any(not x.startswith('JubJubParams::') for x in e.unknown): return dict(meta, res='unsup', why='unmodelled calls ' + ', '.join(sorted(e.unknown))[:200])
    sec = Secrets(*classify(pairs.find(pr.s)))
    live = bnot(S.pan)
    try:
        sh = norm(S.eff, sec, live)
        n = decide(sh, sec, '', S.pan)
        W = e.W.at
        lost = band(cofactor(S.pan, W, False), bnot(cofactor(S.pan, W, True)))
        if lost is not FALSE: raise Bad('synthesis without a witness panics where synthesis with one does not: ' + show(lost, 6)[:300])
    except Bad as x:
        return dict(meta, res='diff', what='%s: emitted circuit depends on witness values: %s' % (pr.name, x))
    return dict(meta, res='eq', cases=n)

def nopub(pr, inst=None):
    """no public input is added"""
    import pairs
    lay = SHAPE if pr.layer == 'sem' else pairs.LAYERS[pr.layer]
    e, S = pairs.run(pr.s, lay, {**pr.extra, **EXTRA} if pr.extra else None, inst, pairs.rounds(inst) if inst else 0)
    meta = {'functions': sorted(x for x in e.analysed if not x.startswith('harness')), 'calls': e.ncalls, 'effects': len(S.eff)}
    def walk(eff):
        for g, k, pl in eff:
            if g is FALSE: continue
            if k == 'loop': yield from walk(pl[2])
            elif k in ('input', 'public') or k.startswith('prim:Signal::inputize'): yield g
    for g in walk(S.eff):
        return dict(meta, res='diff', what='%s: adds a public input%s' % (pr.name, '' if g is TRUE else ' when ' + show(g, 5)[:200]))
    return dict(meta, res='eq')
