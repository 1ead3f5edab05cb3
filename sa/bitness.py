"""Every boolean signal a function returns is forced to 0 or 1 by the recorded equations."""
from terms import *
from engine import *
from elim import *
import contracts

def bools(v, out):
    if isinstance(v, Agg):
        if isinstance(v.tag, str) and v.tag.endswith('CBool'): out.append(v.fs[0].fs[0] if isinstance(v.fs[0], Agg) else v.fs[0]); return
        for f in v.fs: bools(f, out)
    elif isinstance(v, En):
        for k in sorted(v.pay):
            for f in v.pay[k]: bools(f, out)
    elif isinstance(v, Seq):
        for g in v.segs:
            if g[0] != 'e': raise Undecided('sequence result')
            bools(g[1], out)

def bit(pr, inst=None):
    import pairs
    lay = pairs.LAYERS[pr.layer] if isinstance(pr.layer, str) else pr.layer
    lay = {k: v for k, v in lay.items() if k not in pr.drop}
    e, S = pairs.run(pr.s, lay, pr.extra, inst, pairs.rounds(inst) if inst else 0)
    meta = {'functions': sorted(x for x in e.analysed if not x.startswith('harness')), 'calls': e.ncalls, 'effects': len(S.eff)}
    if any(not x.startswith('JubJubParams::') for x in e.unknown): return dict(meta, res='unsup', why='unmodelled calls ' + ', '.join(sorted(e.unknown))[:200])
    bs = []
    bools(S.ret, bs)
    if not bs: raise Undecided('no boolean result')
    W = e.W.at
    bad = []
    p = setup(S, [sp('arg%d' % i) for i in range(6)])
    for i, x in enumerate(bs):
        x = ren(p, cofactor(x, W, False))
        d = lift(lambda y: y if y is UNDEF else mul(y, sub(y, ONE)), x)
        lv = set()
        def leaves(y):
            if isinstance(y, Ite): leaves(y.hi); leaves(y.lo)
            else: lv.add(y)
        leaves(d)
        if all(y is UNDEF or not cpoly(y) for y in lv): continue
        acc = ren(p, conj(S, W, False))
        def leaf(b):
            y = b.pairs[0][0]
            if y is UNDEF: return
            q = mul(y, sub(y, ONE))
            if not cpoly(q): return
            if ne_eq(b, q): return
            bad.append('the constraints admit a value other than 0 and 1 for boolean %d of the result (%s), when %s' % (i, show(y, 5)[:200], '; '.join(b.log)[:400]))
        explore(Box(acc, TRUE, [(x, x)]), leaf)
        if bad: break
    if bad: return dict(meta, res='diff', what='%s: %s' % (pr.name, bad[0]))
    return other_circuit(pr, inst) or dict(meta, res='eq')

def ne_eq(b, q):
    """q = 0 is one of the equations (up to a constant factor)"""
    a = eq0(frompoly(cpoly(q)))
    if a is TRUE: return True
    for x in b.eqs:
        c = eq0(x)
        if isinstance(c, Ite) and isinstance(a, Ite) and c.at is a.at: return True
    return False
