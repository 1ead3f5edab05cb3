"""Canonical form and comparison of function summaries."""
from terms import *
import terms as TM
from engine import *

class Canon: pass

def constraints(eff):
    """conjunction of all recorded equations as one decision diagram"""
    c = TRUE
    for g, kind, pl in eff:
        if kind == 'eq': x = eq0(pl[0])
        elif kind == 'nz': x = bnot(eq0(pl[0]))
        elif kind == 'loop':
            N, k, ents = pl
            b = constraints(ents)
            if b is TRUE: continue
            x = lift(lambda n: app('all', n, Lam(k, b)), N)
        else: continue
        c = band(c, bor(bnot(g), x))
    return c

def ordered(eff, kinds):
    """value number of the ordered list of effects of the given kinds"""
    out = []
    for g, kind, pl in eff:
        if kind in kinds: out.append(Agg('ev', [g, sp(kind)] + [x for x in pl if isinstance(x, V)]))
        elif kind == 'loop':
            N, k, ents = pl
            b = ordered(ents, kinds)
            if not b: continue
            out.append(Agg('evloop', [g, N, Lam(k, Agg('evs', b))]))
    return [x for x in out if x.fs[0] is not FALSE]

def allocs(eff):
    out = []
    for g, kind, pl in eff:
        if kind == 'alloc': out.append(Agg('al', [pl[0], ite(g, pl[1], TRUE) if g is not TRUE else pl[1]]))
        elif kind == 'loop':
            N, k, ents = pl
            b = allocs(ents)
            if b: out.append(Agg('alloop', [N, Lam(k, Agg('als', b))]))
    return out

def guard_value(c, v):
    """v where c holds, undefined elsewhere"""
    if isinstance(v, (T, Ite)): return ite(c, v, UNDEF)
    if isinstance(v, Agg): return Agg(v.tag, [guard_value(c, f) for f in v.fs])
    if isinstance(v, En):
        return En(v.tag, ite(c, v.disc, UNDEF), {k: [guard_value(c, f) for f in p] for k, p in v.pay.items()})
    if isinstance(v, Seq):
        k = var('k')
        n = v.length
        return Agg('seq', [ite(c, n, UNDEF), guard_value(c, n) if False else ite(c, n, UNDEF), Lam(k, guard_value(c, guarded_elem(v, k, n)))])
    return v
def guarded_elem(v, k, n):
    with facts(sub(sub(n, ONE), k) if isinstance(n, T) else ZERO): x = seq_get(v, k)
    c = ilt(k, n)
    return guard_value(c, x) if isinstance(x, (T, Ite, Agg, En)) else x

def canon(S, public=('public', 'input')):
    c = Canon()
    live = bnot(S.pan)
    c.parts = {}
    c.parts['panic'] = S.pan
    c.parts['result'] = guard_value(live, fin(S.ret)) if live is not TRUE else fin(S.ret)
    for i, o in S.outs.items():
        c.parts[i if isinstance(i, str) else '&mut arg%d' % i] = guard_value(live, fin(o)) if live is not TRUE else fin(o)
    cc = constraints(S.eff)
    c.parts['constraints'] = ite(live, cc, UNDEF)
    c.parts['public inputs'] = Agg('pub', ordered(S.eff, public) + [UNIT0, UNIT0])
    c.parts['allocations'] = allocs(S.eff)
    return c
def fin(v):
    v = strip_undef(v)
    return v

def atoms_of(x, out, seen=None):
    """opaque vocabulary of a value"""
    seen = set() if seen is None else seen
    def go(x):
        if not isinstance(x, V):
            return
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, T):
            if x.op == 'app':
                out.add(x.args[0] if isinstance(x.args[0], str) else str(x.args[0]))
                if x.args[0] == 'opq': out.add('opq')
                for a in x.args[1:]:
                    if x.args[0] in ('blake2s', 'scalar') and isinstance(a, T) and a.op == 'app' and a.args[0] == 'opq': a = a.args[1]      # a byte string, not a join of unlike shapes
                    go(a)
            elif x.op == 'fold':
                out.add('fold')
                F, i, k = x.args
                for a in F.inits + F.steps: go(a)
                go(k)
            elif x.op in ('add', 'mul', 'inv'):
                for a in x.args: go(a)
            elif x.op == 'ref': out.add('ref')
        elif isinstance(x, Ite):
            d = x.at.data
            for y in (d if isinstance(d, tuple) else (d,)): go(y)
            go(x.hi); go(x.lo)
        elif isinstance(x, Agg):
            for f in x.fs: go(f)
        elif isinstance(x, En):
            go(x.disc)
            for p in x.pay.values():
                for f in p: go(f)
        elif isinstance(x, Seq):
            for g in x.segs:
                for y in g[1:]: go(y)
        elif isinstance(x, Lam): go(x.body)
    go(x)
    return out

def diff(a, b, ignore=()):
    """names of the parts that differ"""
    out = []
    for k in sorted(set(a.parts) | set(b.parts)):
        if k in ignore: continue
        x, y = a.parts.get(k), b.parts.get(k)
        if k == 'allocations':
            if sorted(z.v for z in x) != sorted(z.v for z in y): out.append((k, Agg('l', x), Agg('l', y)))
            continue
        if x is None or y is None: out.append((k, x, y)); continue
        if x.v != y.v: out.append((k, x, y))
    return out

def firstdiff(x, y, d=0):
    """innermost differing component (for the report)"""
    if isinstance(x, Agg) and isinstance(y, Agg) and len(x.fs) == len(y.fs):
        for f, g in zip(x.fs, y.fs):
            if f.v != g.v: return firstdiff(f, g, d + 1)
    if isinstance(x, Ite) and isinstance(y, Ite) and x.at is y.at:
        if x.hi.v != y.hi.v: return firstdiff(x.hi, y.hi, d + 1)
        return firstdiff(x.lo, y.lo, d + 1)
    if isinstance(x, Lam) and isinstance(y, Lam):
        k = var('k')
        return firstdiff(x(k), y(k), d + 1)
    if isinstance(x, En) and isinstance(y, En):
        if x.disc.v != y.disc.v: return firstdiff(x.disc, y.disc)
        for k in x.pay:
            for f, g in zip(x.canpay(k), y.canpay(k)):
                if f.v != g.v: return firstdiff(f, g)
    return x, y

def generic_diff(SA, SB):
    """compare results where neither side fails; failures on proper zero sets (denominators) are not compared"""
    out = []
    def thin(p):
        while True:
            ats = set(); collect_atoms(p, ats)
            z = [a for a in ats if a.kind == 'EQ0']
            if not z: return p
            p = cofactor(p, min(z, key=lambda a: a.idx), False)
    if thin(SA.pan).v != thin(SB.pan).v: out.append(('panic', SA.pan, SB.pan))
    live = band(bnot(SA.pan), bnot(SB.pan))
    def c(v): return vcare(fin(v), live)
    if c(SA.ret).v != c(SB.ret).v: out.append(('result', c(SA.ret), c(SB.ret)))
    for i in SA.outs:
        if c(SA.outs[i]).v != c(SB.outs[i]).v: out.append(('&mut arg%d' % i, c(SA.outs[i]), c(SB.outs[i])))
    return out
