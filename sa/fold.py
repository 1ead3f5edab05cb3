"""Constant folding: with constant operands an operation emits nothing and its result is a constant.

Same summaries as the shape analysis.  Every number carries the condition K under which it is a constant; here the
flags of the listed arguments (`want`, default: all) are assumed to hold.  What is left of the guarded effects must be
nothing, and the flags of all numbers in the result must reduce to true."""
from terms import *
from engine import *
from elim import Undecided
import shape as SH
import contracts

def katoms(x, out):
    if isinstance(x, Ite):
        seen = set(); st = [x]
        while st:
            y = st.pop()
            if isinstance(y, Ite) and y.id not in seen:
                seen.add(y.id); st += [y.hi, y.lo]
                if SH.isK(y.at): out.add(y.at)

def flags(v, out, path='result'):
    """(path, K) of each circuit number inside a value"""
    if isinstance(v, Agg):
        if v.tag == 'CNum': out.append((path, v.fs[1]))
        else:
            for i, f in enumerate(v.fs): flags(f, out, '%s.%d' % (path, i))
    elif isinstance(v, En):
        for k in sorted(v.pay):
            for f in v.pay[k]: flags(f, out, path)
    elif isinstance(v, Seq):
        for i, g in enumerate(v.segs):
            if g[0] == 'e': flags(g[1], out, '%s[%d]' % (path, i))
            elif g[0] == 'm': flags(g[3], out, '%s[k]' % path)
            else: raise Undecided('opaque sequence in the result')
    elif isinstance(v, Ite) and any(isinstance(x, (Agg, En, Seq)) for x in leaves(v)): raise Undecided('conditional result')

def _hash(c):
    v = c.eng.opaque(c.st, 'poseidon', None, c.args, c.argtys, c.ret)
    out = []
    for i in range(len(c.args)):
        from models import byval
        x = byval(c, i)
        if isinstance(x, Seq): flags(x, out)
    K = TRUE
    for _, k in out: K = band(K, scal(k))
    c.eng.emit(c.st, 'prim:poseidon', K)
    return mkcnum(v.fs[0] if isinstance(v, Agg) else v, K)
EXTRA = {'circuit::poseidon::c_poseidon': _hash}

def fold(pr, inst=None):
    import pairs
    lay = SH.SHAPE if pr.layer == 'sem' else pairs.LAYERS[pr.layer]
    e, S = pairs.run(pr.s, lay, {**pr.extra, **EXTRA} if pr.extra else None, inst, pairs.rounds(inst) if inst else 0)
    meta = {'functions': sorted(x for x in e.analysed if not x.startswith('harness')), 'calls': e.ncalls, 'effects': len(S.eff)}
    if any(not x.startswith('JubJubParams::') for x in e.unknown): return dict(meta, res='unsup', why='unmodelled calls ' + ', '.join(sorted(e.unknown))[:200])
    sec = SH.Secrets(*SH.classify(pairs.find(pr.s)))
    ks = set()
    fl = []
    flags(S.ret, fl)
    sh = SH.norm(S.eff, sec, bnot(S.pan))
    for x in sh:
        for y in (x[0],) + tuple(x[2:]): katoms(y, ks)
    for _, k in fl: katoms(k, ks)
    katoms(S.pan, ks)
    ks = [a for a in ks if pr.want is None or sec.root(a.data.args[1]) in pr.want]
    def at(x):
        for a in ks: x = cofactor(x, a, True)
        return x
    pan = at(S.pan)
    cas = 'every operand is a constant' if pr.want is None else ' and '.join(pr.want) + (' is a constant' if len(pr.want) == 1 else ' are constants')
    n = 0
    for x in sh:
        g = band(at(x[0]), bnot(pan))
        if g is FALSE: continue
        n += 1
        if pr.layer == 'sem':
            if x[1] in ('eq', 'nz'): continue            # decided at the primitive; tied wires are seen as allocations
            if x[1].startswith('prim:') and all(at(k) is TRUE for k in x[2:]): continue
            if x[1] == 'loop': raise Undecided('effects in a loop')
        if x[1] in ('public', 'input') : continue
        return dict(meta, res='diff', what='%s: %s is emitted although %s%s' % (pr.name, {'alloc': 'an allocation', 'eq': 'a constraint', 'nz': 'a constraint'}.get(x[1], x[1]), cas, '' if g is TRUE else ', when ' + show(g, 5)[:200]))
    if pan is not TRUE and pr.want is None:
        for p, k in fl:
            k = at(scal(k))
            if k is TRUE or band(bnot(k), bnot(pan)) is FALSE: continue
            return dict(meta, res='diff', what='%s: %s is not a constant although %s%s' % (pr.name, p, cas, '' if k is FALSE else ', when not ' + show(k, 5)[:200]))
    return dict(meta, res='eq', cases=n + len(fl))
